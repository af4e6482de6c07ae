// simjom core: virtual file system, clock, scheduler, processes, semaphores, fork server.
#include "core.h"
#include <QtCore/QtCore>
#include <condition_variable>
#include <mutex>
#include <atomic>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

extern int simRunJom(int argc, char **argv);           // win32.cpp
extern "C" const char *simWhy = "";

namespace sim {

static const qint64 T0 = 132223104000000000LL;          // 2020-01-01 as FILETIME
static qint64 g_ms = 0;
QMap<QString, int> g_openFiles;
int g_handlesOpen = 0, g_handlePeak = 0, g_badHandles = 0;
QString g_cwd = QStringLiteral("C:/work");
QJsonObject g_scenario;
std::function<void()> g_ctrlHandler;
static int g_traceFd = -1;

// ---------------------------------------------------------------- paths
QString winClean(const QString &in)
{
    QString p = in;
    p.replace(QLatin1Char('\\'), QLatin1Char('/'));
    QString prefix;
    if (p.startsWith(QLatin1String("//"))) {
        prefix = QStringLiteral("//");
        p = p.mid(2);
    } else if (p.length() >= 2 && p.at(1) == QLatin1Char(':')) {
        prefix = p.left(2);
        p = p.mid(2);
        if (p.startsWith(QLatin1Char('/'))) { prefix += QLatin1Char('/'); p = p.mid(1); }
    } else if (p.startsWith(QLatin1Char('/'))) {
        prefix = QStringLiteral("/");
        p = p.mid(1);
    }
    const bool rooted = prefix.endsWith(QLatin1Char('/'));
    QStringList out;
    for (const QString &part : p.split(QLatin1Char('/'))) {
        if (part.isEmpty() || part == QLatin1String("."))
            continue;
        if (part == QLatin1String("..")) {
            if (!out.isEmpty() && out.last() != QLatin1String("..")) { out.removeLast(); continue; }
            if (rooted) continue;
        }
        out.append(part);
    }
    QString r = prefix + out.join(QLatin1Char('/'));
    if (r.isEmpty() && !in.isEmpty()) r = QStringLiteral(".");
    return r;
}

QString winAbs(const QString &in, const QString &base0)
{
    QString base = base0.isEmpty() ? g_cwd : base0;
    QString p = in;
    p.replace(QLatin1Char('\\'), QLatin1Char('/'));
    if (p.startsWith(QLatin1String("//?/"))) p = p.mid(4);
    if (p.length() >= 2 && p.at(1) == QLatin1Char(':')) {
        if (p.length() == 2 || p.at(2) != QLatin1Char('/')) {
            if (p.at(0).toUpper() == base.at(0).toUpper()) p = base + QLatin1Char('/') + p.mid(2);
            else p = p.left(2) + QLatin1Char('/') + p.mid(2);
        }
    } else if (p.startsWith(QLatin1String("//"))) {
    } else if (p.startsWith(QLatin1Char('/'))) {
        p = base.left(2) + p;
    } else {
        p = base + QLatin1Char('/') + p;
    }
    p = winClean(p);
    if (p.length() >= 2 && p.at(1) == QLatin1Char(':')) p[0] = p.at(0).toUpper();
    return p;
}

QString native(const QString &p) { QString r = p; r.replace(QLatin1Char('/'), QLatin1Char('\\')); return r; }

// ---------------------------------------------------------------- vfs
static std::map<QString, Node *> g_fs;   // key: lower-cased absolute path
static QString keyOf(const QString &p)
{
    QString k = winAbs(p).toLower();
    while (k.length() > 3 && k.endsWith(QLatin1Char('/'))) k.chop(1);
    // Win32 drops trailing dots and blanks of a path component
    while (k.length() > 3 && (k.endsWith(QLatin1Char('.')) || k.endsWith(QLatin1Char(' ')))) k.chop(1);
    return k;
}
static QString parentOf(const QString &key)
{
    const int i = key.lastIndexOf(QLatin1Char('/'));
    if (i < 0) return QString();
    return i <= 2 ? key.left(i + 1) : key.left(i);
}
static bool validName(const QString &key)
{
    for (int i = 0; i < key.length(); ++i) {
        const ushort c = key.at(i).unicode();
        if (c < 32 || c == '"' || c == '<' || c == '>' || c == '|' || c == '*' || c == '?' || (c == ':' && i != 1))
            return false;
    }
    return true;
}
Node *fsFind(const QString &path)
{
    if (path.isEmpty()) return nullptr;
    auto it = g_fs.find(keyOf(path));
    return it == g_fs.end() ? nullptr : it->second;
}
void fsMkdir(const QString &path)
{
    QString k = keyOf(path);
    if (g_fs.count(k)) return;
    const QString par = parentOf(k);
    if (par != k && !par.isEmpty()) fsMkdir(par);
    Node *n = new Node;
    n->path = winAbs(path);
    n->dir = true;
    n->time = nowFileTime();
    g_fs[k] = n;
}
void fsTouch(Node *n) { n->time = nowFileTime(); }
Node *fsOpenForWrite(const QString &path, const char *who, bool truncate)
{
    const QString k = keyOf(path);
    if (path.isEmpty() || !validName(k)) return nullptr;
    auto it = g_fs.find(k);
    Node *n = it == g_fs.end() ? nullptr : it->second;
    if (n && (n->dir || n->readOnly)) return nullptr;
    if (!n) {
        auto pit = g_fs.find(parentOf(k));
        if (pit == g_fs.end() || !pit->second->dir) return nullptr;
        n = new Node;
        n->path = winAbs(path);
        n->fd = memfd_create("vfs", MFD_CLOEXEC);
        g_fs[k] = n;
        trace({{QStringLiteral("e"), QStringLiteral("create")}, {QStringLiteral("p"), n->path},
               {QStringLiteral("who"), QString::fromLatin1(who)}});
    } else if (truncate) {
        if (ftruncate(n->fd, 0)) {}
        trace({{QStringLiteral("e"), QStringLiteral("trunc")}, {QStringLiteral("p"), n->path},
               {QStringLiteral("who"), QString::fromLatin1(who)}});
    }
    fsTouch(n);
    return n;
}
Node *fsCreate(const QString &path, const QByteArray &data, const char *who, bool log)
{
    Node *n;
    if (log) {
        n = fsOpenForWrite(path, who, true);
    } else {
        fsMkdir(parentOf(winAbs(path)));
        n = fsFind(path);
        if (!n) {
            n = new Node;
            n->path = winAbs(path);
            n->fd = memfd_create("vfs", MFD_CLOEXEC);
            g_fs[keyOf(path)] = n;
        } else if (ftruncate(n->fd, 0)) {}
        fsTouch(n);
    }
    if (!n) return nullptr;
    if (pwrite(n->fd, data.constData(), data.size(), 0) != data.size()) {}
    return n;
}
bool fsRemove(const QString &path, const char *who)
{
    auto it = g_fs.find(keyOf(path));
    if (it == g_fs.end() || it->second->dir || it->second->readOnly || it->second->locked) return false;
    trace({{QStringLiteral("e"), QStringLiteral("remove")}, {QStringLiteral("p"), it->second->path},
           {QStringLiteral("who"), QString::fromLatin1(who)}});
    g_fs.erase(it);
    return true;
}
QByteArray fsRead(Node *n)
{
    QByteArray r;
    if (!n || n->dir) return r;
    struct stat st;
    if (fstat(n->fd, &st)) return r;
    r.resize(int(st.st_size));
    if (st.st_size && pread(n->fd, r.data(), st.st_size, 0) != st.st_size) {}
    return r;
}
QList<Node *> fsList(const QString &dir)
{
    QList<Node *> r;
    QString k = keyOf(dir);
    for (auto &e : g_fs)
        if (e.first != k && parentOf(e.first) == k)
            r.append(e.second);
    return r;
}

// ---------------------------------------------------------------- clock
qint64 nowMs() { return g_ms; }
qint64 nowFileTime() { return T0 + g_ms * 10000; }
void advanceMs(qint64 ms) { g_ms += ms; }

// ---------------------------------------------------------------- environment
struct EnvVar { QString name, value; };
static std::map<QString, EnvVar> g_env;
bool envGet(const QString &n, QString *v)
{
    auto it = g_env.find(n.toUpper());
    if (it == g_env.end()) return false;
    *v = it->second.value;
    return true;
}
void envSet(const QString &n, const QString &v)
{
    auto it = g_env.find(n.toUpper());
    if (it == g_env.end()) g_env[n.toUpper()] = EnvVar{n, v};
    else it->second.value = v;
}
void envUnset(const QString &n) { g_env.erase(n.toUpper()); }
QStringList envList()
{
    QStringList r;
    for (auto &e : g_env) r.append(e.second.name + QLatin1Char('=') + e.second.value);
    return r;
}

// ---------------------------------------------------------------- trace
static void traceRaw(const QByteArray &line)
{
    if (g_traceFd < 0) return;
    QByteArray l = line + '\n';
    if (write(g_traceFd, l.constData(), l.size()) != l.size()) {}
}
static off_t g_off[3] = {0, 0, 0};
static void traceOutput()
{
    for (int s = 1; s <= 2; ++s) {
        struct stat st;
        if (fstat(s, &st) == 0 && S_ISREG(st.st_mode) && st.st_size != g_off[s]) {
            g_off[s] = st.st_size;
            traceRaw("{\"e\":\"o\",\"s\":" + QByteArray::number(s) + ",\"n\":" + QByteArray::number(qint64(st.st_size)) + "}");
        }
    }
}
void trace(const QJsonObject &o)
{
    if (g_traceFd < 0) return;
    traceOutput();
    traceRaw(QJsonDocument(o).toJson(QJsonDocument::Compact));
}

static std::vector<Proc *> &procs();
void finish(const char *status, int code)
{
    fflush(stdout);
    fflush(stderr);
    traceOutput();
    QJsonArray running;
    for (Proc *p : procs()) if (!p->done && p->pid < 100000) running.append(p->pid);
    QJsonObject fs;
    for (auto &e : g_fs) {
        Node *n = e.second;
        if (n->dir || n->builtin) continue;
        fs.insert(n->path, QJsonArray{double(n->time - T0) / 1e7, QString::fromLatin1(fsRead(n).toBase64())});
    }
    QJsonObject env;
    for (auto &e : g_env) env.insert(e.second.name, e.second.value);
    QJsonArray nd;
    trace({{QStringLiteral("e"), QStringLiteral("end")}, {QStringLiteral("status"), QString::fromLatin1(status)},
           {QStringLiteral("code"), code}, {QStringLiteral("running"), running}, {QStringLiteral("fs"), fs},
           {QStringLiteral("ms"), double(g_ms)}, {QStringLiteral("handles"), QJsonArray{g_handlesOpen, g_handlePeak, g_badHandles}}});
    _exit(0);
}

// ---------------------------------------------------------------- scheduler
static std::mutex g_mutex;
struct TaskX : Task { std::condition_variable cv; };
static std::vector<TaskX *> g_tasks;
static TaskX *g_current = nullptr;
static std::vector<int> g_schedule;
static size_t g_schedulePos = 0;
static int g_steps = 0, g_maxSteps = 20000, g_ctrlAt = -1, g_decisions = 0;
static std::vector<std::function<qint64()>> g_timerSources;

Task *currentTask() { return g_current; }
Task *newTask(const QString &name)
{
    TaskX *t = new TaskX;
    t->id = int(g_tasks.size());
    t->name = name;
    t->ready = [] { return true; };
    g_tasks.push_back(t);
    return t;
}
void addTimerSource(std::function<qint64()> f) { g_timerSources.push_back(f); }
unsigned choose(unsigned n)
{
    if (n <= 1) return 0;
    if (g_schedulePos >= g_schedule.size()) return 0;
    return unsigned(g_schedule[g_schedulePos++]) % n;
}

static bool g_quiet = false;
static bool procEnabled(Proc *p);
static void procStep(Proc *p);

// Picks and performs actions until a task is to run; returns that task.
static TaskX *pickTask()
{
    for (;;) {
        if (++g_steps > g_maxSteps) finish("steps", -1);
        if (g_ctrlAt >= 0 && g_decisions++ == g_ctrlAt && g_ctrlHandler) {
            trace({{QStringLiteral("e"), QStringLiteral("ctrlc")}});
            g_ctrlHandler();
        }
        std::vector<TaskX *> ts;
        for (size_t i = 1; i < g_tasks.size(); ++i)
            if (!g_tasks[i]->done && !g_tasks[i]->dead && g_tasks[i]->ready && g_tasks[i]->ready()) ts.push_back(g_tasks[i]);
        if (!g_tasks[0]->done && g_tasks[0]->ready && g_tasks[0]->ready()) ts.push_back(g_tasks[0]);
        std::vector<Proc *> ps;
        for (Proc *p : procs()) if (!p->done && procEnabled(p)) ps.push_back(p);
        const unsigned n = unsigned(ts.size() + ps.size());
        if (n) {
            const unsigned k = choose(n);
            if (k < ts.size()) return ts[k];
            g_quiet = ts.empty();     // jom itself has nothing left to do
            procStep(ps[k - ts.size()]);
            g_quiet = false;
            continue;
        }
        qint64 due = -1;
        for (auto &f : g_timerSources) { const qint64 d = f(); if (d >= 0 && (due < 0 || d < due)) due = d; }
        if (due < 0) finish("deadlock", -1);
        if (due > g_ms) g_ms = due; else ++g_ms;
    }
}

void block(const std::function<bool()> &ready)
{
    std::unique_lock<std::mutex> lk(g_mutex);
    TaskX *me = g_current;
    me->ready = ready;
    TaskX *t = pickTask();
    if (t != me) {
        g_current = t;
        t->cv.notify_all();
        me->cv.wait(lk, [me] { return g_current == me; });
    }
}
void taskEnter(Task *t0)
{
    TaskX *t = static_cast<TaskX *>(t0);
    std::unique_lock<std::mutex> lk(g_mutex);
    t->cv.wait(lk, [t] { return g_current == t; });
}
void taskExit(Task *t0)
{
    TaskX *t = static_cast<TaskX *>(t0);
    std::unique_lock<std::mutex> lk(g_mutex);
    t->done = true;
    TaskX *n = pickTask();
    g_current = n;
    n->cv.notify_all();
}

// ---------------------------------------------------------------- pipes
std::deque<Packet> g_packets;
void pipePump(Pipe *p)
{
    if (!p->pending) return;
    if (!p->buf.isEmpty()) {
        const int n = qMin<int>(p->buf.size(), int(p->cap));
        memcpy(p->dst, p->buf.constData(), n);
        p->buf.remove(0, n);
        p->pending = false;
        p->delivered += n;
        if (p->ovl) { static_cast<quint64 *>(p->ovl)[0] = 0; static_cast<quint64 *>(p->ovl)[1] = quint64(n); }    // STATUS_SUCCESS
        g_packets.push_back(Packet{true, quint32(n), p->key, p->ovl, 0, p->owner});
    } else if (p->writers <= 0) {
        p->pending = false;
        if (p->ovl) static_cast<quint64 *>(p->ovl)[0] = 0xC000014BULL;     // STATUS_PIPE_BROKEN
        g_packets.push_back(Packet{false, 0, p->key, p->ovl, 109 /*ERROR_BROKEN_PIPE*/, p->owner});
    }
}
// the pending read ends with an error and a completion packet
void pipeCancel(Pipe *p)
{
    if (!p->pending) return;
    p->pending = false;
    if (p->ovl) static_cast<quint64 *>(p->ovl)[0] = 0xC0000120ULL;     // STATUS_CANCELLED
    g_packets.push_back(Packet{false, 0, p->key, p->ovl, 995 /*ERROR_OPERATION_ABORTED*/, p->owner});
}
void pipeWrite(Pipe *p, const QByteArray &d)
{
    if (!p || !p->readerOpen) return;
    p->buf.append(d);
    pipePump(p);
}
void pipeCloseWriter(Pipe *p)
{
    if (!p) return;
    --p->writers;
    if (p->readerOpen) pipePump(p);
}

// ---------------------------------------------------------------- semaphores
static std::map<QString, Sem *> g_sems;
Sem *semOpen(const QString &key, int initial, bool create)
{
    auto it = g_sems.find(key);
    Sem *s;
    const bool existed = it != g_sems.end();
    if (existed) {
        s = it->second;            // Windows: CreateSemaphore on an existing name keeps its value
    } else {
        s = new Sem;
        s->key = key;
        s->value = initial;
        g_sems[key] = s;
    }
    trace({{QStringLiteral("e"), QStringLiteral("sem")}, {QStringLiteral("op"), QStringLiteral("open")}, {QStringLiteral("key"), key},
           {QStringLiteral("create"), create}, {QStringLiteral("existed"), existed}, {QStringLiteral("initial"), initial}, {QStringLiteral("val"), s->value}});
    return s;
}
static void semTake(Sem *s, const char *who)
{
    --s->value;
    trace({{QStringLiteral("e"), QStringLiteral("sem")}, {QStringLiteral("op"), QStringLiteral("acq")}, {QStringLiteral("key"), s->key},
           {QStringLiteral("who"), QString::fromLatin1(who)}, {QStringLiteral("val"), s->value}});
}
void semAcquire(Sem *s, const char *who)
{
    trace({{QStringLiteral("e"), QStringLiteral("sem")}, {QStringLiteral("op"), QStringLiteral("wait")}, {QStringLiteral("key"), s->key},
           {QStringLiteral("who"), QString::fromLatin1(who)}, {QStringLiteral("val"), s->value}});
    block([s] { return s->value > 0; });
    semTake(s, who);
}
void semRelease(Sem *s, int n, const char *who)
{
    s->value += n;
    trace({{QStringLiteral("e"), QStringLiteral("sem")}, {QStringLiteral("op"), QStringLiteral("rel")}, {QStringLiteral("key"), s->key},
           {QStringLiteral("who"), QString::fromLatin1(who)}, {QStringLiteral("n"), n}, {QStringLiteral("val"), s->value}});
}

// ---------------------------------------------------------------- processes
std::vector<Proc *> g_procs;
static std::vector<Proc *> &procs() { return g_procs; }
static int g_nextPid = 1000;

static QStringList splitArgs(const QString &cmd)
{
    QStringList r;
    QString cur;
    bool q = false, have = false;
    for (int i = 0; i < cmd.length(); ++i) {
        const QChar c = cmd.at(i);
        if (c == QLatin1Char('\\') && i + 1 < cmd.length() && cmd.at(i + 1) == QLatin1Char('"')) {
            cur += QLatin1Char('"'); have = true; ++i;
        } else if (c == QLatin1Char('"')) { q = !q; have = true; }
        else if (!q && (c == QLatin1Char(' ') || c == QLatin1Char('\t'))) { if (have) { r << cur; cur.clear(); have = false; } }
        else { cur += c; have = true; }
    }
    if (have) r << cur;
    return r;
}

static Node *exeCandidate(const QString &p)
{
    Node *n = fsFind(p);
    if (n && !n->dir && n->path.endsWith(QLatin1String(".exe"), Qt::CaseInsensitive)) return n;
    const int slash = qMax(p.lastIndexOf(QLatin1Char('/')), p.lastIndexOf(QLatin1Char('\\')));
    if (p.indexOf(QLatin1Char('.'), slash + 1) < 0) {
        n = fsFind(p + QLatin1String(".exe"));
        if (n && !n->dir) return n;
    }
    return nullptr;
}
static Node *findExe(const QString &name, const QString &path, const QString &relBase)
{
    if (name.isEmpty()) return nullptr;
    if (name.contains(QLatin1Char('/')) || name.contains(QLatin1Char('\\')) || (name.length() > 1 && name.at(1) == QLatin1Char(':')))
        return exeCandidate(winAbs(name, relBase));
    QStringList dirs;
    dirs << QStringLiteral("C:/jom") << relBase << QStringLiteral("C:/Windows/System32") << QStringLiteral("C:/Windows");
    for (const QString &d : path.split(QLatin1Char(';')))
        if (!d.trimmed().isEmpty()) dirs << winAbs(d, relBase);
    for (const QString &d : dirs)
        if (Node *n = exeCandidate(d + QLatin1Char('/') + name)) return n;
    return nullptr;
}
// First token of a command line, CreateProcess style. *rest gets everything behind it.
static Node *resolveCommand(const QString &cmd0, const QString &path, const QString &relBase, QString *rest)
{
    QString cmd = cmd0;
    int i = 0;
    while (i < cmd.length() && (cmd.at(i) == QLatin1Char(' ') || cmd.at(i) == QLatin1Char('\t'))) ++i;
    cmd = cmd.mid(i);
    if (cmd.isEmpty()) return nullptr;
    if (cmd.at(0) == QLatin1Char('"')) {
        int e = cmd.indexOf(QLatin1Char('"'), 1);
        if (e < 0) e = cmd.length();
        *rest = cmd.mid(e + 1);
        return findExe(cmd.mid(1, e - 1), path, relBase);
    }
    for (int e = 1; e <= cmd.length(); ++e) {
        if (e < cmd.length() && cmd.at(e) != QLatin1Char(' ') && cmd.at(e) != QLatin1Char('\t')) continue;
        if (Node *n = findExe(cmd.left(e), path, relBase)) { *rest = cmd.mid(e); return n; }
    }
    return nullptr;
}

static void prependSteps(Proc *p, const QJsonArray &steps)
{
    for (int i = steps.size() - 1; i >= 0; --i) p->steps.push_front(steps.at(i).toArray());
}
static QJsonArray programSteps(Node *exe, const QString &rest, const QString &cwd)
{
    QString base = exe->path.mid(exe->path.lastIndexOf(QLatin1Char('/')) + 1).toLower();
    if (base.endsWith(QLatin1String(".exe"))) base.chop(4);
    const QStringList args = splitArgs(rest);
    const QJsonObject progs = g_scenario.value(QLatin1String("progs")).toObject();
    QJsonArray s;
    if (base == QLatin1String("act")) {
        const QString id = args.value(0);
        s = progs.value(id).toArray();
    } else if (base == QLatin1String("touch")) {
        for (const QString &a : args) s.append(QJsonArray{QStringLiteral("touch"), a});
    } else if (base == QLatin1String("cat")) {
        for (const QString &a : args) s.append(QJsonArray{QStringLiteral("cat"), a});
    } else if (base == QLatin1String("fail")) {
        s.append(QJsonArray{QStringLiteral("exit"), args.value(0, QStringLiteral("1")).toInt()});
    } else if (base == QLatin1String("say")) {
        s.append(QJsonArray{QStringLiteral("out"), args.join(QLatin1Char(' ')) + QLatin1String("\r\n")});
    } else if (base == QLatin1String("conv")) {     // conv PREFIX EXT FILES: makes PREFIX + stem of FILE + EXT
        for (int i = 2; i < args.count(); ++i) {
            QString f = args.at(i);
            f.replace(QLatin1Char('/'), QLatin1Char('\\'));
            f.remove(0, f.lastIndexOf(QLatin1Char('\\')) + 1);
            const QJsonArray own = progs.value(QLatin1String("conv ") + f.toLower()).toArray();
            for (const QJsonValue &v : own) s.append(v);
            if (!own.isEmpty() && own.last().toArray().at(0).toString() == QLatin1String("exit")) break;
            const int d = f.lastIndexOf(QLatin1Char('.'));
            s.append(QJsonArray{QStringLiteral("touch"), args.at(0) + (d < 0 ? f : f.left(d)) + args.at(1)});
        }
    } else if (base == QLatin1String("cmd")) {
        QString r = rest.trimmed();
        if (r.startsWith(QLatin1String("/c"), Qt::CaseInsensitive)) {
            r = r.mid(2).trimmed();
            if (r.startsWith(QLatin1Char('"'))) {
                bool preserve = false;
                if (r.count(QLatin1Char('"')) == 2) {
                    const int e = r.indexOf(QLatin1Char('"'), 1);
                    const QString inner = r.mid(1, e - 1);
                    static const QString special = QStringLiteral("&<>()@^|");
                    bool sp = false;
                    for (QChar c : inner) if (special.contains(c)) sp = true;
                    preserve = !sp && (inner.contains(QLatin1Char(' ')) || inner.contains(QLatin1Char('\t')))
                            && findExe(inner, QString(), cwd);
                }
                if (!preserve) {
                    const int l = r.lastIndexOf(QLatin1Char('"'));
                    if (l > 0) r.remove(l, 1);
                    r.remove(0, 1);
                }
            }
            s.append(QJsonArray{QStringLiteral("sh"), r});
        }
    } else {
        s = progs.value(base).toArray();
    }
    return s;
}

QStringList g_envBlock;
Proc *procStart(const QString &cmdLine, const QString &cwd, const QMap<QString, QString> &env, Pipe *out, Pipe *err, int *winError)
{
    QString path;
    envGet(QStringLiteral("PATH"), &path);
    QString rest;
    Node *exe = resolveCommand(cmdLine, path, g_cwd, &rest);
    if (!exe) { *winError = 2; return nullptr; }
    Node *d = cwd.isEmpty() ? fsFind(g_cwd) : fsFind(cwd);
    if (!d || !d->dir) { *winError = 267; return nullptr; }
    g_ms += 1;
    Proc *p = new Proc;
    p->pid = g_nextPid++;
    p->cmd = cmdLine;
    p->cwd = cwd.isEmpty() ? g_cwd : winAbs(cwd);
    p->env = env;
    p->out = out;
    p->err = err;
    if (out) { ++out->writers; out->owner = p->pid; }
    if (err) { ++err->writers; err->owner = p->pid; }
    prependSteps(p, programSteps(exe, rest, p->cwd));
    g_procs.push_back(p);
    QJsonObject o{{QStringLiteral("e"), QStringLiteral("start")}, {QStringLiteral("pid"), p->pid}, {QStringLiteral("cmd"), cmdLine},
                  {QStringLiteral("cwd"), p->cwd}, {QStringLiteral("exe"), exe->path}, {QStringLiteral("handles"), g_handlesOpen}};
    if (!g_openFiles.isEmpty()) o.insert(QStringLiteral("open"), QJsonArray::fromStringList(g_openFiles.keys()));
    const QJsonValue en = g_scenario.value(QLatin1String("envnames"));
    if (en.isArray()) {
        QJsonObject eo;
        for (const QJsonValue &v : en.toArray()) {
            const QString k = v.toString();
            if (env.contains(k.toUpper())) eo.insert(k, env.value(k.toUpper()));
        }
        o.insert(QStringLiteral("env"), eo);
    } else if (en.isBool() && en.toBool()) {
        QJsonObject eo;
        for (auto it = env.begin(); it != env.end(); ++it) eo.insert(it.key(), it.value());
        o.insert(QStringLiteral("env"), eo);
        o.insert(QStringLiteral("envraw"), QJsonArray::fromStringList(g_envBlock));
    }
    if (g_scenario.value(QLatin1String("snap")).toBool()) {
        QJsonObject fo;
        for (QString a : splitArgs(cmdLine)) {
            while (a.startsWith(QLatin1Char('@')) || a.startsWith(QLatin1Char('<'))) a.remove(0, 1);
            Node *n = fsFind(winAbs(a, p->cwd));
            if (n && !n->dir && !n->builtin) fo.insert(a, QString::fromLatin1(fsRead(n).toBase64()));
        }
        o.insert(QStringLiteral("files"), fo);
    }
    trace(o);
    return p;
}

static QString srvKey(Proc *p, const QString &k)
{
    if (k == QLatin1String("$SRV")) return p->env.value(QStringLiteral("_JOMSRVKEY_"));
    return k;
}
static bool procEnabled(Proc *p)
{
    if (p->steps.empty()) return true;
    const QJsonArray &s = p->steps.front();
    if (s.at(0).toString() == QLatin1String("acq")) {
        auto it = g_sems.find(srvKey(p, s.at(1).toString()));
        return it != g_sems.end() && it->second->value > 0;
    }
    if (s.at(0).toString() == QLatin1String("waitfile"))
        return fsFind(winAbs(s.at(1).toString(), p->cwd)) != nullptr;
    return true;
}
static void procEnd(Proc *p, int code)
{
    p->done = true;
    p->code = code;
    trace({{QStringLiteral("e"), QStringLiteral("exit")}, {QStringLiteral("pid"), p->pid}, {QStringLiteral("code"), double(quint32(code))}, {QStringLiteral("q"), g_quiet}});
    pipeCloseWriter(p->out);
    pipeCloseWriter(p->err);
}
static QByteArray stepBytes(const QJsonValue &v)
{
    if (v.isObject()) return QByteArray::fromBase64(v.toObject().value(QLatin1String("b64")).toString().toLatin1());
    return v.toString().toUtf8();
}
static void procOut(Proc *p, bool errStream, const QByteArray &d)
{
    if (!errStream && !p->redirect.isEmpty()) {
        if (p->redirect.compare(QLatin1String("nul"), Qt::CaseInsensitive) == 0) return;
        const QString f = winAbs(p->redirect, p->cwd);
        Node *n = fsFind(f);
        fsCreate(f, (n ? fsRead(n) : QByteArray()) + d, "proc");
        return;
    }
    pipeWrite(errStream ? p->err : p->out, d);
}
static QString expandPercent(const QString &s, Proc *p)
{
    QString r;
    int i = 0;
    while (i < s.length()) {
        if (s.at(i) == QLatin1Char('%')) {
            const int e = s.indexOf(QLatin1Char('%'), i + 1);
            if (e > i + 1) {
                const QString name = s.mid(i + 1, e - i - 1).toUpper();
                if (p->env.contains(name)) { r += p->env.value(name); i = e + 1; continue; }
            }
        }
        r += s.at(i++);
    }
    return r;
}
static void shellSplit(Proc *p, const QString &cmd)
{
    QStringList ops, segs;
    QString cur, op;
    bool q = false;
    for (int i = 0; i < cmd.length(); ++i) {
        const QChar c = cmd.at(i);
        if (c == QLatin1Char('"')) q = !q;
        if (!q && c == QLatin1Char('^') && i + 1 < cmd.length()) { cur += cmd.at(++i); continue; }
        if (!q && (c == QLatin1Char('&') || c == QLatin1Char('|'))) {
            ops << op; segs << cur; cur.clear();
            op = c;
            if (i + 1 < cmd.length() && cmd.at(i + 1) == c) { op += c; ++i; }
            continue;
        }
        cur += c;
    }
    ops << op; segs << cur;
    p->steps.push_front(QJsonArray{QStringLiteral("exitlast")});
    for (int i = segs.count() - 1; i >= 0; --i)
        p->steps.push_front(QJsonArray{QStringLiteral("seg"), ops.at(i), segs.at(i)});
}
static void shellSegment(Proc *p, const QString &op, QString text)
{
    if (op == QLatin1String("&&") && p->lastCode != 0) return;
    if (op == QLatin1String("||") && p->lastCode == 0) return;
    // redirections
    p->redirect.clear();
    QString plain;
    bool q = false, append = false;
    for (int i = 0; i < text.length(); ++i) {
        const QChar c = text.at(i);
        if (c == QLatin1Char('"')) q = !q;
        if (!q && (c == QLatin1Char('>') || c == QLatin1Char('<'))) {
            bool in = c == QLatin1Char('<');
            append = false;
            ++i;
            if (!in && i < text.length() && text.at(i) == QLatin1Char('>')) { append = true; ++i; }
            while (i < text.length() && text.at(i).isSpace()) ++i;
            QString name;
            bool nq = false;
            for (; i < text.length(); ++i) {
                if (text.at(i) == QLatin1Char('"')) { nq = !nq; continue; }
                if (!nq && text.at(i).isSpace()) break;
                name += text.at(i);
            }
            --i;
            if (!in) {
                p->redirect = name;
                p->redirectAppend = append;
                if (!append && name.compare(QLatin1String("nul"), Qt::CaseInsensitive) != 0)
                    fsCreate(winAbs(name, p->cwd), QByteArray(), "proc");
            }
            continue;
        }
        plain += c;
    }
    text = expandPercent(plain.trimmed(), p);
    if (text.startsWith(QLatin1Char('@'))) text = text.mid(1).trimmed();
    if (text.isEmpty()) return;
    trace({{QStringLiteral("e"), QStringLiteral("sub")}, {QStringLiteral("pid"), p->pid}, {QStringLiteral("cmd"), text}, {QStringLiteral("cwd"), p->cwd}});
    int sp = 0;
    while (sp < text.length() && !text.at(sp).isSpace()) ++sp;
    const QString word = text.left(sp).toLower();
    const QString rest = text.mid(sp + 1);
    p->lastCode = 0;
    if (word == QLatin1String("echo")) { procOut(p, false, rest.toUtf8() + "\r\n"); return; }
    if (word == QLatin1String("exit")) {
        const QStringList a = splitArgs(rest);
        int c = 0;
        for (const QString &x : a) if (!x.startsWith(QLatin1Char('/'))) c = x.toInt();
        p->lastCode = c;
        p->steps.clear();
        p->steps.push_front(QJsonArray{QStringLiteral("exitlast")});
        return;
    }
    if (word == QLatin1String("cd") || word == QLatin1String("chdir")) {
        QStringList a = splitArgs(rest);
        if (!a.isEmpty() && a.first().compare(QLatin1String("/d"), Qt::CaseInsensitive) == 0) a.removeFirst();
        if (a.isEmpty()) { procOut(p, false, native(p->cwd).toUtf8() + "\r\n"); return; }
        Node *n = fsFind(winAbs(a.first(), p->cwd));
        if (n && n->dir) p->cwd = n->path; else { procOut(p, true, "The system cannot find the path specified.\r\n"); p->lastCode = 1; }
        return;
    }
    if (word == QLatin1String("del") || word == QLatin1String("erase")) {
        for (const QString &a : splitArgs(rest)) if (!a.startsWith(QLatin1Char('/'))) fsRemove(winAbs(a, p->cwd), "proc");
        return;
    }
    if (word == QLatin1String("md") || word == QLatin1String("mkdir")) {
        for (const QString &a : splitArgs(rest)) fsMkdir(winAbs(a, p->cwd));
        return;
    }
    if (word == QLatin1String("type")) {
        for (const QString &a : splitArgs(rest)) p->steps.push_front(QJsonArray{QStringLiteral("cat"), a});
        return;
    }
    if (word == QLatin1String("copy")) {
        QStringList a;
        for (const QString &x : splitArgs(rest)) if (!x.startsWith(QLatin1Char('/'))) a << x;
        Node *n = a.count() == 2 ? fsFind(winAbs(a.at(0), p->cwd)) : nullptr;
        if (!n) { procOut(p, true, "The system cannot find the file specified.\r\n"); p->lastCode = 1; return; }
        fsCreate(winAbs(a.at(1), p->cwd), fsRead(n), "proc");
        return;
    }
    if (word == QLatin1String("rem") || word == QLatin1String("set") || word == QLatin1String("ver") || word.startsWith(QLatin1Char(':'))) return;
    QString r;
    Node *exe = resolveCommand(text, p->env.value(QStringLiteral("PATH")), p->cwd, &r);
    if (!exe) {
        procOut(p, true, "'" + word.toUtf8() + "' is not recognized as an internal or external command,\r\noperable program or batch file.\r\n");
        p->lastCode = 1;
        return;
    }
    p->steps.push_front(QJsonArray{QStringLiteral("segend")});
    prependSteps(p, programSteps(exe, r, p->cwd));
}
static void procStep(Proc *p)
{
    g_ms += 10;
    if (p->steps.empty()) { procEnd(p, p->lastCode); return; }
    const QJsonArray s = p->steps.front();
    p->steps.pop_front();
    const QString op = s.at(0).toString();
    auto path = [&](int i) { return winAbs(s.at(i).toString(), p->cwd); };
    char who[32];
    snprintf(who, sizeof who, "%d", p->pid);
    if (op == QLatin1String("out")) procOut(p, false, stepBytes(s.at(1)));
    else if (op == QLatin1String("err")) procOut(p, true, stepBytes(s.at(1)));
    else if (op == QLatin1String("touch")) {
        Node *n = fsFind(path(1));
        if (n && !n->dir) fsTouch(n); else fsCreate(path(1), QByteArray(), who);
    } else if (op == QLatin1String("write")) fsCreate(path(1), stepBytes(s.at(2)), who);
    else if (op == QLatin1String("del")) fsRemove(path(1), who);
    else if (op == QLatin1String("cat")) {
        Node *n = fsFind(path(1));
        if (n) procOut(p, false, fsRead(n)); else { procOut(p, true, "cannot open\r\n"); p->lastCode = 1; }
    } else if (op == QLatin1String("acq")) {
        auto it = g_sems.find(srvKey(p, s.at(1).toString()));
        semTake(it->second, who);
    } else if (op == QLatin1String("rel")) {
        auto it = g_sems.find(srvKey(p, s.at(1).toString()));
        if (it != g_sems.end()) semRelease(it->second, 1, who);
    } else if (op == QLatin1String("exit")) {
        // inside a shell: only ends the current program
        bool shell = false;
        for (auto &x : p->steps) if (x.at(0).toString() == QLatin1String("segend")) shell = true;
        if (shell) {
            p->lastCode = int(qint64(s.at(1).toDouble()));
            while (p->steps.front().at(0).toString() != QLatin1String("segend")) p->steps.pop_front();
        } else {
            procEnd(p, int(qint64(s.at(1).toDouble())));
        }
    } else if (op == QLatin1String("sh")) shellSplit(p, s.at(1).toString());
    else if (op == QLatin1String("seg")) shellSegment(p, s.at(1).toString(), s.at(2).toString());
    else if (op == QLatin1String("segend")) p->redirect.clear();
    else if (op == QLatin1String("exitlast")) procEnd(p, p->lastCode);
}
bool procExitVisible(Proc *p)
{
    if (!p->done) return false;
    if (raceMode()) return true;
    // The completion-port thread has seen everything the process wrote.
    for (Pipe *pp : {p->out, p->err})
        if (pp && pp->readerOpen && !pp->buf.isEmpty() && pp->pending) return false;
    for (const Packet &k : g_packets) if (k.proc == p->pid && k.bytes) return false;
    for (Pipe *pp : {p->out, p->err})
        if (pp && pp->readerOpen && !pp->buf.isEmpty()) return false;
    return true;
}

int runShellSync(const QString &cmd)
{
    Proc *p = new Proc;
    p->pid = 100000 + g_nextPid++;
    p->cmd = cmd;
    p->cwd = g_cwd;
    for (auto &e : g_env) p->env.insert(e.first, e.second.value);
    trace({{QStringLiteral("e"), QStringLiteral("system")}, {QStringLiteral("cmd"), cmd}});
    shellSplit(p, cmd);
    for (int i = 0; i < 1000 && !p->done; ++i) procStep(p);
    return p->code;
}

bool raceMode() { return g_scenario.value(QLatin1String("race")).toBool(); }
int idealThreads() { return g_scenario.value(QLatin1String("cpus")).toInt(4); }
qint64 jomPid() { return g_scenario.value(QLatin1String("pid")).toInt(4242); }

// ---------------------------------------------------------------- event dispatcher
static std::vector<NotifierBase *> g_notifiers;
void notifierAdd(NotifierBase *n) { g_notifiers.push_back(n); }
void notifierRemove(NotifierBase *n)
{
    g_notifiers.erase(std::remove(g_notifiers.begin(), g_notifiers.end(), n), g_notifiers.end());
}

class SimDispatcher : public QAbstractEventDispatcher
{
public:
    explicit SimDispatcher(bool isMain) : m_main(isMain)
    {
        addTimerSource([this] { return nextDue(); });
    }
    ~SimDispatcher() override { m_gone = true; m_timers.clear(); }
    struct T { int id; qint64 interval; Qt::TimerType type; QObject *obj; qint64 due; };

    qint64 nextDue() const
    {
        qint64 d = -1;
        for (const T &t : m_timers) if (d < 0 || t.due < d) d = t.due;
        return d;
    }
    int fireTimers()
    {
        int n = 0;
        QList<int> ids;
        for (const T &t : m_timers) if (t.due <= nowMs()) ids << t.id;
        for (int id : ids) {
            for (T &t : m_timers) {
                if (t.id != id) continue;
                t.due = nowMs() + qMax<qint64>(1, t.interval);
                QTimerEvent ev(id);
                QObject *o = t.obj;
                QCoreApplication::sendEvent(o, &ev);
                ++n;
                break;
            }
        }
        return n;
    }
    bool anySignaled() const
    {
        for (NotifierBase *n : g_notifiers) if (n->signaled()) return true;
        return false;
    }
    int fireNotifier()
    {
        std::vector<NotifierBase *> s;
        for (NotifierBase *n : g_notifiers) if (n->signaled()) s.push_back(n);
        if (s.empty()) return 0;
        s[choose(unsigned(s.size()))]->fire();
        return 1;
    }
    bool processEvents(QEventLoop::ProcessEventsFlags flags) override
    {
        m_interrupted = false;
        emit awake();
        block([] { return true; });
        m_woken = false;
        QCoreApplication::sendPostedEvents();
        int n = m_woken ? 1 : 0;
        if (!m_interrupted) { n += fireTimers(); if (m_main && !m_interrupted) n += fireNotifier(); }
        if (n || m_interrupted || m_woken || !(flags & QEventLoop::WaitForMoreEvents)) return n > 0;
        emit aboutToBlock();
        block([this] { return m_woken || m_interrupted || (nextDue() >= 0 && nextDue() <= nowMs()) || (m_main && anySignaled()); });
        emit awake();
        m_woken = false;
        QCoreApplication::sendPostedEvents();
        if (!m_interrupted) { fireTimers(); if (m_main && !m_interrupted) fireNotifier(); }
        return true;
    }
    bool hasPendingEvents() override { return m_woken; }
    void registerSocketNotifier(QSocketNotifier *) override {}
    void unregisterSocketNotifier(QSocketNotifier *) override {}
    void registerTimer(int id, int interval, Qt::TimerType type, QObject *o) override
    {
        m_timers.append(T{id, interval, type, o, nowMs() + interval});
    }
    bool unregisterTimer(int id) override
    {
        for (int i = 0; i < m_timers.size(); ++i) if (m_timers[i].id == id) { m_timers.removeAt(i); return true; }
        return false;
    }
    bool unregisterTimers(QObject *o) override
    {
        bool r = false;
        for (int i = m_timers.size() - 1; i >= 0; --i) if (m_timers[i].obj == o) { m_timers.removeAt(i); r = true; }
        return r;
    }
    QList<TimerInfo> registeredTimers(QObject *o) const override
    {
        QList<TimerInfo> r;
        for (const T &t : m_timers) if (t.obj == o) r << TimerInfo(t.id, int(t.interval), t.type);
        return r;
    }
    int remainingTime(int id) override
    {
        for (const T &t : m_timers) if (t.id == id) return int(qMax<qint64>(0, t.due - nowMs()));
        return -1;
    }
    void wakeUp() override { m_woken = true; }
    void interrupt() override { m_interrupted = true; m_woken = true; }
    void flush() override {}
private:
    bool m_main;
    bool m_gone = false;
    std::atomic<bool> m_woken{false}, m_interrupted{false};
    QList<T> m_timers;
};
void installMainDispatcher() { QCoreApplication::setEventDispatcher(new SimDispatcher(true)); }
void *newThreadDispatcher() { return static_cast<QAbstractEventDispatcher *>(new SimDispatcher(false)); }

// ---------------------------------------------------------------- scenario set-up
static QByteArray fileBytes(const QJsonObject &f)
{
    if (f.contains(QLatin1String("b"))) return QByteArray::fromBase64(f.value(QLatin1String("b")).toString().toLatin1());
    return f.value(QLatin1String("d")).toString().toUtf8();
}
static QStringList g_argv;
QStringList scenarioArguments() { return g_argv; }

static void setUp(const QJsonObject &sc)
{
    g_scenario = sc;
    g_ms = 1000;
    for (const char *d : {"C:/", "C:/Windows/System32", "C:/jom", "C:/temp", "C:/work"}) fsMkdir(QString::fromLatin1(d));
    for (const char *e : {"act", "touch", "cat", "fail", "say", "cmd", "conv"}) {
        Node *n = fsCreate(QStringLiteral("C:/Windows/System32/") + QString::fromLatin1(e) + QStringLiteral(".exe"), "MZ", "", false);
        n->builtin = true;
        n->time = T0 - 1000000000000LL;
    }
    g_cwd = winAbs(sc.value(QLatin1String("cwd")).toString(QStringLiteral("C:/work")));
    fsMkdir(g_cwd);
    for (const QJsonValue &v : sc.value(QLatin1String("dirs")).toArray()) fsMkdir(v.toString());
    for (const QJsonValue &v : sc.value(QLatin1String("files")).toArray()) {
        const QJsonObject f = v.toObject();
        Node *n = fsCreate(f.value(QLatin1String("p")).toString(), fileBytes(f), "", false);
        if (f.contains(QLatin1String("t"))) n->time = T0 + qint64(f.value(QLatin1String("t")).toDouble() * 1e7);
        n->readOnly = f.value(QLatin1String("ro")).toBool();
        n->locked = f.value(QLatin1String("locked")).toBool();
        if (f.value(QLatin1String("hide")).toBool()) n->builtin = true;
    }
    if (sc.contains(QLatin1String("now"))) g_ms = qint64(sc.value(QLatin1String("now")).toDouble() * 1000);
    g_env.clear();
    envSet(QStringLiteral("PATH"), QStringLiteral("C:\\Windows\\System32"));
    envSet(QStringLiteral("SystemRoot"), QStringLiteral("C:\\Windows"));
    envSet(QStringLiteral("ComSpec"), QStringLiteral("C:\\Windows\\System32\\cmd.exe"));
    envSet(QStringLiteral("TMP"), QStringLiteral("C:\\temp"));
    const QJsonObject env = sc.value(QLatin1String("env")).toObject();
    for (auto it = env.begin(); it != env.end(); ++it) {
        if (it.value().isNull()) envUnset(it.key()); else envSet(it.key(), it.value().toString());
    }
    const QJsonObject sems = sc.value(QLatin1String("sems")).toObject();
    for (auto it = sems.begin(); it != sems.end(); ++it) { Sem *s = new Sem; s->key = it.key(); s->value = it.value().toInt(); g_sems[s->key] = s; }
    for (const QJsonValue &v : sc.value(QLatin1String("clients")).toArray()) {
        Proc *p = new Proc;
        p->pid = 100000 + g_nextPid++;
        p->cwd = g_cwd;
        prependSteps(p, v.toArray());
        g_procs.push_back(p);
    }
    for (const QJsonValue &v : sc.value(QLatin1String("schedule")).toArray()) g_schedule.push_back(v.toInt());
    g_ctrlAt = sc.value(QLatin1String("ctrlc")).toInt(-1);
    g_maxSteps = sc.value(QLatin1String("steps")).toInt(20000);
    setenv("QT_HASH_SEED", QByteArray::number(sc.value(QLatin1String("hseed")).toInt(0)).constData(), 1);
    newTask(QStringLiteral("main"));
    g_current = g_tasks[0];
    for (const QJsonValue &v : sc.value(QLatin1String("argv")).toArray()) g_argv << v.toString();
    g_argv.prepend(QStringLiteral("C:\\jom\\jom.exe"));
}

static bool g_finishing = false;
static void onExit(int code, void *)
{
    if (!g_finishing) { g_finishing = true; finish("exit", code); }
}

[[noreturn]] static void runChild(const QByteArray &line, int outFd, int errFd, int traceFd)
{
    g_traceFd = traceFd;
    QJsonParseError pe;
    const QJsonDocument doc = QJsonDocument::fromJson(line, &pe);
    if (!doc.isObject()) { fprintf(stderr, "bad scenario: %s\n", qPrintable(pe.errorString())); _exit(90); }
    const QJsonObject sc = doc.object();
    const QByteArray in = QByteArray::fromBase64(sc.value(QLatin1String("stdin")).toString().toLatin1());
    const int inFd = memfd_create("in", 0);
    if (write(inFd, in.constData(), in.size()) != in.size()) {}
    lseek(inFd, 0, SEEK_SET);
    dup2(inFd, 0);
    if (outFd >= 0) { dup2(outFd, 1); dup2(sc.value(QLatin1String("merge")).toBool() ? outFd : errFd, 2); }
    struct rlimit rl = {20, 22};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit fl = {256u << 20, 256u << 20};
    setrlimit(RLIMIT_FSIZE, &fl);
#if !defined(__SANITIZE_ADDRESS__)
    struct rlimit al = {rlim_t(3) << 30, rlim_t(3) << 30};
    setrlimit(RLIMIT_AS, &al);
#endif
    alarm(150);
    setUp(sc);
    std::vector<QByteArray> raw;
    std::vector<char *> argv;
    for (const QString &a : qAsConst(g_argv)) raw.push_back(a.toLocal8Bit());
    for (QByteArray &a : raw) argv.push_back(a.data());
    argv.push_back(nullptr);
    installMainDispatcher();
    on_exit(onExit, nullptr);
    int code = simRunJom(int(argv.size() - 1), argv.data());
    g_finishing = true;
    finish("exit", code);
}

static QByteArray readFd(int fd)
{
    QByteArray r;
    struct stat st;
    fstat(fd, &st);
    qint64 n = st.st_size;
    if (n > 64 * 1024 * 1024) n = 64 * 1024 * 1024;
    r.resize(int(n));
    if (n && pread(fd, r.data(), n, 0) != n) {}
    return r;
}

static QByteArray serve(const QByteArray &line)
{
    const int o = memfd_create("out", 0), e = memfd_create("err", 0), t = memfd_create("trace", 0);
    // append mode so that several writers never overwrite each other
    for (int fd : {o, e, t}) fcntl(fd, F_SETFL, O_APPEND);
    fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0) runChild(line, o, e, t);
    int st = 0;
    waitpid(pid, &st, 0);
    QByteArray tr = readFd(t);
    QByteArray ev = "[";
    bool first = true;
    for (const QByteArray &l : tr.split('\n')) {
        if (l.isEmpty() || !l.endsWith('}')) continue;
        if (!first) ev += ',';
        first = false;
        ev += l;
    }
    ev += "]";
    QByteArray r = "{\"sig\":" + QByteArray::number(WIFSIGNALED(st) ? WTERMSIG(st) : 0)
            + ",\"exit\":" + QByteArray::number(WIFEXITED(st) ? WEXITSTATUS(st) : -1)
            + ",\"out\":\"" + readFd(o).toBase64() + "\",\"err\":\"" + readFd(e).toBase64()
            + "\",\"events\":" + ev + "}\n";
    close(o); close(e); close(t);
    return r;
}
} // namespace sim

int main(int argc, char **argv)
{
    if (!getenv("SIMJOM_NOASLR")) {
        setenv("SIMJOM_NOASLR", "1", 1);
        const int p = personality(0xffffffff);
        if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    setenv("LC_ALL", "C.UTF-8", 1);
    unsetenv("QT_HASH_SEED");
    if (argc > 1) {
        QFile f(QString::fromLocal8Bit(argv[argc - 1]));
        if (!f.open(QFile::ReadOnly)) return 2;
        const QByteArray line = f.readAll();
        if (argc > 2 && !strcmp(argv[1], "--direct")) sim::runChild(line, -1, -1, 2);
        const QByteArray r = sim::serve(line);
        fwrite(r.constData(), 1, r.size(), stdout);
        return 0;
    }
    std::string buf;
    char tmp[65536];
    for (;;) {
        const size_t nl = buf.find('\n');
        if (nl != std::string::npos) {
            const QByteArray line(buf.data(), int(nl));
            buf.erase(0, nl + 1);
            const QByteArray r = sim::serve(line);
            fwrite(r.constData(), 1, r.size(), stdout);
            fflush(stdout);
            continue;
        }
        const ssize_t n = read(0, tmp, sizeof tmp);
        if (n <= 0) return 0;
        buf.append(tmp, size_t(n));
    }
}
