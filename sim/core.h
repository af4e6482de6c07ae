// simjom core: deterministic stand-in for the parts of Windows that jom talks to.
// Compiled WITHOUT Windows defines; everything that needs <windows.h> lives in win32.cpp.
#pragma once
#include <QtCore/QByteArray>
#include <QtCore/QJsonObject>
#include <QtCore/QList>
#include <QtCore/QMap>
#include <QtCore/QString>
#include <QtCore/QStringList>
#include <QtCore/QVector>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- paths
QString winClean(const QString &p);            // forward slashes, no "." / ".." / doubled separators
QString winAbs(const QString &p, const QString &base = QString());  // cleaned absolute path, upper-case drive, '/'
QString native(const QString &p);

// ---------------------------------------------------------------- virtual file system
struct Node {
    QString path;      // display form, '/' separators
    bool dir = false;
    int fd = -1;       // memfd with the content (files)
    qint64 time = 0;   // FILETIME units
    bool readOnly = false;
    bool builtin = false;   // present before the scenario's own files (system executables and the like)
    bool locked = false;    // cannot be deleted
};
Node *fsFind(const QString &path);                       // path may be relative (jom's cwd)
Node *fsCreate(const QString &path, const QByteArray &data, const char *who, bool log = true);
Node *fsOpenForWrite(const QString &path, const char *who, bool truncate);
bool fsRemove(const QString &path, const char *who);
void fsMkdir(const QString &path);
QByteArray fsRead(Node *n);
QList<Node *> fsList(const QString &dir);
void fsTouch(Node *n);
extern QString g_cwd;                                    // "C:/work"

// ---------------------------------------------------------------- clock
qint64 nowMs();                 // virtual milliseconds since start of the scenario
qint64 nowFileTime();
void advanceMs(qint64 ms);

// ---------------------------------------------------------------- environment of the jom process
bool envGet(const QString &name, QString *value);
void envSet(const QString &name, const QString &value);
void envUnset(const QString &name);
QStringList envList();

// ---------------------------------------------------------------- trace
void trace(const QJsonObject &o);
[[noreturn]] void finish(const char *status, int code);
extern "C" const char *simWhy;

// ---------------------------------------------------------------- scheduling
struct Task {                   // a thread of the jom process
    int id;
    QString name;
    std::function<bool()> ready;
    bool done = false;
    bool dead = false;
};
Task *currentTask();
Task *newTask(const QString &name);
void taskEnter(Task *t);        // in a new thread: wait until scheduled
void taskExit(Task *t);         // in a thread that ends: hand the baton over for good
void block(const std::function<bool()> &ready);
void addTimerSource(std::function<qint64()> next);   // next due time in virtual ms, or -1
unsigned choose(unsigned n);    // scenario-controlled choice, 0 when exhausted

// ---------------------------------------------------------------- pipes, processes, completion port
struct Proc;
struct Pipe {
    int id = 0;
    QByteArray buf;
    int writers = 0;
    bool readerOpen = true;
    // pending overlapped read
    bool pending = false;
    char *dst = nullptr;
    quint32 cap = 0;
    void *ovl = nullptr;
    bool hasKey = false;
    quint64 key = 0;
    int owner = 0;              // process that got the write end
    qint64 delivered = 0;
};
struct Packet { bool ok; quint32 bytes; quint64 key; void *ovl; quint32 err; int proc; };
extern std::deque<Packet> g_packets;
void pipeWrite(Pipe *p, const QByteArray &data);
void pipeCloseWriter(Pipe *p);
void pipePump(Pipe *p);
void pipeCancel(Pipe *p);
extern QMap<QString, int> g_openFiles;          // files jom has open
extern int g_handlesOpen, g_handlePeak, g_badHandles;

struct Proc {
    int pid = 0;
    QString cmd;
    QString cwd;
    QMap<QString, QString> env;        // upper-cased name -> value
    std::deque<QJsonArray> steps;
    Pipe *out = nullptr, *err = nullptr;
    bool done = false;
    int code = 0;
    int lastCode = 0;
    QString redirect;                  // shell redirection target, empty if none
    bool redirectAppend = false;
    bool skip = false;
};
// Returns null and sets *winError if the process cannot be started.
extern QStringList g_envBlock;      // as given to the last CreateProcess
Proc *procStart(const QString &cmdLine, const QString &cwd, const QMap<QString, QString> &env,
                Pipe *out, Pipe *err, int *winError);
bool procExitVisible(Proc *p);
extern std::vector<Proc *> g_procs;

int runShellSync(const QString &cmd);  // system()

// ---------------------------------------------------------------- semaphores
struct Sem { QString key; int value = 0; };
Sem *semOpen(const QString &key, int initial, bool create);
void semAcquire(Sem *s, const char *who);
void semRelease(Sem *s, int n, const char *who);

// ---------------------------------------------------------------- scenario
extern QJsonObject g_scenario;
bool raceMode();
int idealThreads();
qint64 jomPid();
extern std::function<void()> g_ctrlHandler;

// event notifiers (QWinEventNotifier)
struct NotifierBase { virtual ~NotifierBase() {} virtual bool signaled() const = 0; virtual void fire() = 0; };
void notifierAdd(NotifierBase *);
void notifierRemove(NotifierBase *);

void installMainDispatcher();
class QObjectHolder;
void *newThreadDispatcher();           // QAbstractEventDispatcher*
} // namespace sim
