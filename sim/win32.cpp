// simjom: the Win32 functions jom calls, and the Qt classes with Windows semantics.
// shim.h is force-included
#undef QFileInfo
#undef QDir
#undef QFile
#undef QDirIterator
#undef QThread
#undef QSystemSemaphore
#undef QProcess
#undef QProcessEnvironment
#undef QCoreApplication
#undef QElapsedTimer
#undef system
#undef freopen
#undef fwrite
#include "core.h"
#include <map>
#include <memory>
#include <unistd.h>
#include <sys/mman.h>

namespace sim { QStringList scenarioArguments(); }
int jom_main(int argc, char **argv);
int simRunJom(int argc, char **argv) { return jom_main(argc, argv); }

static QString fromW(const wchar_t *s) { return s ? QString::fromUtf16(reinterpret_cast<const ushort *>(s)) : QString(); }

// ------------------------------------------------------------------ CRT
wchar_t *_wcsdup(const wchar_t *s)
{
    size_t n = 0;
    while (s[n]) ++n;
    wchar_t *r = static_cast<wchar_t *>(malloc((n + 1) * sizeof(wchar_t)));
    return r ? static_cast<wchar_t *>(memcpy(r, s, (n + 1) * sizeof(wchar_t))) : r;
}
static QByteArray vfsProcPath(const QString &name, const QString &mode)
{
    sim::Node *n = mode.startsWith(QLatin1Char('r')) ? sim::fsFind(name)
                                                     : sim::fsOpenForWrite(name, "jom", mode.startsWith(QLatin1Char('w')));
    if (!n || n->dir) return QByteArray();
    return "/proc/self/fd/" + QByteArray::number(n->fd);
}
static FILE *openVfs(const QString &name, const QString &mode, FILE *f)
{
    const QByteArray p = vfsProcPath(name, mode);
    if (p.isEmpty()) { errno = ENOENT; if (f) fclose(f); return nullptr; }
    const QByteArray m = mode.toLatin1();
    return f ? freopen(p.constData(), m.constData(), f) : fopen(p.constData(), m.constData());
}
FILE *_wfopen(const wchar_t *n, const wchar_t *m) { return openVfs(fromW(n), fromW(m), nullptr); }
FILE *_wfreopen(const wchar_t *n, const wchar_t *m, FILE *f) { return openVfs(fromW(n), fromW(m), f); }
FILE *simFopen(const char *n, const char *m) { return openVfs(QString::fromLocal8Bit(n), QString::fromLatin1(m), nullptr); }
FILE *simFreopen(const char *n, const char *m, FILE *f) { return openVfs(QString::fromLocal8Bit(n), QString::fromLatin1(m), f); }
// Binary and text mode of file descriptors, and a limit for single writes ("wmax": larger ones fail with ENOMEM, like on
// Windows consoles). Only fwrite is modelled: in text mode it writes CR LF for LF.
static std::map<int, int> g_fdMode;
int _setmode(int fd, int mode)
{
    if (fd < 0 || (mode != _O_TEXT && mode != _O_BINARY)) { errno = EINVAL; return -1; }
    auto it = g_fdMode.find(fd);
    const int old = it == g_fdMode.end() ? _O_TEXT : it->second;
    g_fdMode[fd] = mode;
    return old;
}
size_t simFwrite(const void *buf, size_t size, size_t n, FILE *f)
{
    const double wmax = sim::g_scenario.value(QLatin1String("wmax")).toDouble();
    if (wmax > 0 && size * n > wmax) { errno = ENOMEM; return 0; }
    auto it = g_fdMode.find(fileno(f));
    if (it != g_fdMode.end() && it->second == _O_BINARY) return fwrite(buf, size, n, f);
    const char *p = static_cast<const char *>(buf);
    for (size_t i = 0; i < size * n; ++i) {
        if (p[i] == '\n' && putc('\r', f) == EOF) return i / size;
        if (putc(p[i], f) == EOF) return i / size;
    }
    return n;
}
int rand_s(unsigned int *v) { static unsigned x = 1; *v = x++; return 0; }
int simSystem(const char *cmd) { return sim::runShellSync(QString::fromLocal8Bit(cmd)); }
int simWSystem(const wchar_t *cmd) { return sim::runShellSync(fromW(cmd)); }
int sim_wprintf(wchar_t *buf, size_t size, const wchar_t *fmt, ...)
{
    // jom formats integers only
    va_list ap;
    va_start(ap, fmt);
    const QByteArray f = fromW(fmt).toLatin1();
    char tmp[1024];
    vsnprintf(tmp, sizeof tmp, f.constData(), ap);
    va_end(ap);
    size_t i = 0;
    for (; tmp[i] && i + 1 < size; ++i) buf[i] = wchar_t(tmp[i]);
    buf[i] = 0;
    return int(i);
}

// ------------------------------------------------------------------ handles
struct HandleObj {
    enum Kind { ProcH, ThreadH, PipeRead, PipeWrite, Port } kind;
    sim::Proc *proc = nullptr;
    sim::Pipe *pipe = nullptr;
    int refs = 1;
};
static QMap<quintptr, HandleObj *> g_handles;
static quintptr g_nextHandle = 0x100;
static DWORD g_lastError = 0;
static HANDLE newHandle(HandleObj::Kind k, sim::Proc *p, sim::Pipe *pipe)
{
    HandleObj *o = new HandleObj;
    o->kind = k;
    o->proc = p;
    o->pipe = pipe;
    const quintptr h = g_nextHandle;
    g_nextHandle += 4;
    g_handles.insert(h, o);
    if (k != HandleObj::Port) sim::g_handlePeak = qMax(sim::g_handlePeak, ++sim::g_handlesOpen);
    return reinterpret_cast<HANDLE>(h);
}
static HandleObj *hobj(HANDLE h) { return g_handles.value(reinterpret_cast<quintptr>(h)); }
static QMap<QString, sim::Pipe *> g_pipeNames;
static int g_pipeId = 1;

extern "C" {
DWORD WINAPI GetLastError(void) { return g_lastError; }
void WINAPI SetLastError(DWORD e) { g_lastError = e; }

BOOL WINAPI CloseHandle(HANDLE h)
{
    HandleObj *o = hobj(h);
    if (!o) { ++sim::g_badHandles; g_lastError = ERROR_INVALID_HANDLE; return FALSE; }
    g_handles.remove(reinterpret_cast<quintptr>(h));
    if (o->kind != HandleObj::Port) --sim::g_handlesOpen;
    if (o->kind == HandleObj::PipeWrite) sim::pipeCloseWriter(o->pipe);
    else if (o->kind == HandleObj::PipeRead) { o->pipe->readerOpen = false; sim::pipeCancel(o->pipe); o->pipe->buf.clear(); }
    delete o;
    return TRUE;
}

HANDLE WINAPI CreateIoCompletionPort(HANDLE file, HANDLE port, ULONG_PTR key, DWORD)
{
    if (file == INVALID_HANDLE_VALUE) return newHandle(HandleObj::Port, nullptr, nullptr);
    HandleObj *o = hobj(file);
    HandleObj *p = hobj(port);
    if (!o || !o->pipe || !p) { g_lastError = ERROR_INVALID_HANDLE; return nullptr; }
    o->pipe->hasKey = true;
    o->pipe->key = key;
    return port;
}
BOOL WINAPI PostQueuedCompletionStatus(HANDLE, DWORD bytes, ULONG_PTR key, LPOVERLAPPED ovl)
{
    sim::g_packets.push_back(sim::Packet{true, bytes, key, ovl, 0, 0});
    return TRUE;
}
BOOL WINAPI GetQueuedCompletionStatus(HANDLE port, LPDWORD bytes, PULONG_PTR key, LPOVERLAPPED *ovl, DWORD)
{
    if (!hobj(port)) { g_lastError = ERROR_INVALID_HANDLE; *ovl = nullptr; return FALSE; }
    sim::block([] { return !sim::g_packets.empty(); });
    const sim::Packet k = sim::g_packets.front();
    sim::g_packets.pop_front();
    *bytes = k.bytes;
    *key = k.key;
    *ovl = static_cast<LPOVERLAPPED>(k.ovl);
    g_lastError = k.err;
    return k.ok ? TRUE : FALSE;
}

HANDLE WINAPI CreateNamedPipeW(LPCWSTR name, DWORD, DWORD, DWORD, DWORD, DWORD, DWORD, LPSECURITY_ATTRIBUTES)
{
    const QString n = fromW(name);
    if (g_pipeNames.contains(n) && g_pipeNames.value(n)->readerOpen) { g_lastError = ERROR_PIPE_BUSY; return INVALID_HANDLE_VALUE; }
    if (sim::g_scenario.value(QLatin1String("pipebusy")).toInt() > 0) {
        static int left = sim::g_scenario.value(QLatin1String("pipebusy")).toInt();
        if (left-- > 0) { g_lastError = ERROR_PIPE_BUSY; return INVALID_HANDLE_VALUE; }
    }
    sim::Pipe *p = new sim::Pipe;
    p->id = g_pipeId++;
    g_pipeNames.insert(n, p);
    return newHandle(HandleObj::PipeRead, nullptr, p);
}
HANDLE WINAPI CreateFileW(LPCWSTR name, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE)
{
    const QString n = fromW(name);
    sim::Pipe *p = g_pipeNames.value(n);
    if (!p) { g_lastError = ERROR_FILE_NOT_FOUND; return INVALID_HANDLE_VALUE; }
    ++p->writers;
    return newHandle(HandleObj::PipeWrite, nullptr, p);
}
BOOL WINAPI ConnectNamedPipe(HANDLE, LPOVERLAPPED) { g_lastError = 535; return FALSE; }
BOOL WINAPI PeekNamedPipe(HANDLE h, PVOID, DWORD, PDWORD, PDWORD avail, PDWORD)
{
    HandleObj *o = hobj(h);
    if (!o || !o->pipe) { g_lastError = ERROR_INVALID_HANDLE; return FALSE; }
    if (o->pipe->buf.isEmpty() && o->pipe->writers <= 0) { g_lastError = ERROR_BROKEN_PIPE; return FALSE; }
    if (avail) *avail = DWORD(o->pipe->buf.size());
    return TRUE;
}
BOOL WINAPI ReadFile(HANDLE h, LPVOID buf, DWORD n, LPDWORD read, LPOVERLAPPED ovl)
{
    HandleObj *o = hobj(h);
    if (!o || !o->pipe) { g_lastError = ERROR_INVALID_HANDLE; return FALSE; }
    sim::Pipe *p = o->pipe;
    if (!ovl) {
        const int k = qMin<int>(p->buf.size(), int(n));
        memcpy(buf, p->buf.constData(), k);
        p->buf.remove(0, k);
        if (read) *read = DWORD(k);
        if (!k) { g_lastError = ERROR_BROKEN_PIPE; return FALSE; }
        return TRUE;
    }
    ovl->Internal = 0x103;      // STATUS_PENDING, stays if the read fails at once
    if (p->buf.isEmpty() && p->writers <= 0) { g_lastError = ERROR_BROKEN_PIPE; return FALSE; }
    p->pending = true;
    p->dst = static_cast<char *>(buf);
    p->cap = n;
    p->ovl = ovl;
    const bool now = !p->buf.isEmpty();
    sim::pipePump(p);
    if (now) return TRUE;
    g_lastError = ERROR_IO_PENDING;
    return FALSE;
}
BOOL WINAPI WriteFile(HANDLE h, LPCVOID buf, DWORD n, LPDWORD written, LPOVERLAPPED)
{
    HandleObj *o = hobj(h);
    if (!o || o->kind != HandleObj::PipeWrite) { g_lastError = ERROR_INVALID_HANDLE; return FALSE; }
    sim::pipeWrite(o->pipe, QByteArray(static_cast<const char *>(buf), int(n)));
    if (written) *written = n;
    return TRUE;
}
BOOL WINAPI CancelIo(HANDLE h) { HandleObj *o = hobj(h); if (o && o->pipe) sim::pipeCancel(o->pipe); return TRUE; }
BOOL WINAPI CancelIoEx(HANDLE h, LPOVERLAPPED) { return CancelIo(h); }
BOOL WINAPI GetOverlappedResult(HANDLE, LPOVERLAPPED, LPDWORD n, BOOL) { *n = 0; g_lastError = 996; return FALSE; }

BOOL WINAPI CreateProcessW(LPCWSTR app, LPWSTR cmd, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, BOOL, DWORD,
                           LPVOID env, LPCWSTR cwd, LPSTARTUPINFOW si, LPPROCESS_INFORMATION pi)
{
    QMap<QString, QString> e;
    sim::g_envBlock.clear();
    if (env) {
        for (const wchar_t *p = static_cast<const wchar_t *>(env); *p;) {
            const QString s = fromW(p);
            sim::g_envBlock += s;
            const int i = s.indexOf(QLatin1Char('='), 1);
            if (i > 0) e.insert(s.left(i).toUpper(), s.mid(i + 1));
            while (*p) ++p;
            ++p;
        }
    } else {
        for (const QString &s : sim::envList()) { const int i = s.indexOf(QLatin1Char(0x3d), 1); e.insert(s.left(i).toUpper(), s.mid(i + 1)); }
    }
    QString c = fromW(cmd);
    if (c.length() >= 32767) { g_lastError = 206; return FALSE; }
    if (app) c = QLatin1Char('"') + fromW(app) + QLatin1String("\" ") + c;
    HandleObj *o = si && (si->dwFlags & STARTF_USESTDHANDLES) ? hobj(si->hStdOutput) : nullptr;
    HandleObj *er = si && (si->dwFlags & STARTF_USESTDHANDLES) ? hobj(si->hStdError) : nullptr;
    int werr = 0;
    sim::Proc *p = sim::procStart(c, fromW(cwd), e, o ? o->pipe : nullptr, er ? er->pipe : nullptr, &werr);
    if (!p) { g_lastError = DWORD(werr); return FALSE; }
    pi->hProcess = newHandle(HandleObj::ProcH, p, nullptr);
    pi->hThread = newHandle(HandleObj::ThreadH, p, nullptr);
    pi->dwProcessId = DWORD(p->pid);
    pi->dwThreadId = DWORD(p->pid) + 100000;
    return TRUE;
}
BOOL WINAPI GetExitCodeProcess(HANDLE h, LPDWORD code)
{
    HandleObj *o = hobj(h);
    if (!o || !o->proc) { g_lastError = ERROR_INVALID_HANDLE; return FALSE; }
    *code = sim::procExitVisible(o->proc) ? DWORD(o->proc->code) : STILL_ACTIVE;
    return TRUE;
}
DWORD WINAPI WaitForSingleObject(HANDLE h, DWORD ms)
{
    HandleObj *o = hobj(h);
    if (!o || !o->proc) return WAIT_FAILED;
    if (ms == 0) return sim::procExitVisible(o->proc) ? WAIT_OBJECT_0 : WAIT_TIMEOUT;
    sim::block([o] { return sim::procExitVisible(o->proc); });
    return WAIT_OBJECT_0;
}
BOOL WINAPI TerminateProcess(HANDLE h, UINT code)
{
    HandleObj *o = hobj(h);
    if (o && o->proc && !o->proc->done) { o->proc->steps.clear(); o->proc->steps.push_front(QJsonArray{QStringLiteral("exit"), int(code)}); }
    return TRUE;
}

DWORD WINAPI GetEnvironmentVariableW(LPCWSTR name, LPWSTR buf, DWORD size)
{
    QString v;
    if (!sim::envGet(fromW(name), &v)) { g_lastError = ERROR_ENVVAR_NOT_FOUND; return 0; }
    g_lastError = 0;
    if (DWORD(v.length()) + 1 > size) return DWORD(v.length()) + 1;
    memcpy(buf, v.utf16(), (v.length() + 1) * 2);
    return DWORD(v.length());
}
DWORD WINAPI GetEnvironmentVariableA(LPCSTR name, LPSTR buf, DWORD size)
{
    QString v;
    if (!sim::envGet(QString::fromLatin1(name), &v)) { g_lastError = ERROR_ENVVAR_NOT_FOUND; return 0; }
    const QByteArray b = v.toLatin1();
    if (DWORD(b.size()) + 1 > size) return DWORD(b.size()) + 1;
    memcpy(buf, b.constData(), b.size() + 1);
    return DWORD(b.size());
}
BOOL WINAPI SetEnvironmentVariableW(LPCWSTR name, LPCWSTR value)
{
    if (value) sim::envSet(fromW(name), fromW(value)); else sim::envUnset(fromW(name));
    return TRUE;
}
DWORD WINAPI GetTempPathW(DWORD n, LPWSTR buf)
{
    QString v;
    if (!sim::envGet(QStringLiteral("TMP"), &v) && !sim::envGet(QStringLiteral("TEMP"), &v)) v = QStringLiteral("C:\\Windows");
    v = sim::native(sim::winAbs(v));
    if (!v.endsWith(QLatin1Char('\\'))) v += QLatin1Char('\\');
    if (DWORD(v.length()) + 1 > n) return DWORD(v.length()) + 1;
    memcpy(buf, v.utf16(), (v.length() + 1) * 2);
    return DWORD(v.length());
}
DWORD WINAPI GetCurrentProcessId(void) { return DWORD(sim::jomPid()); }
// the real one also advances in steps of about 16 ms
DWORD WINAPI GetTickCount(void) { sim::advanceMs(1); return DWORD((sim::nowMs() + 100000) / 16 * 16); }
ULONGLONG WINAPI GetTickCount64(void) { sim::advanceMs(1); return ULONGLONG(sim::nowMs() + 100000); }
void WINAPI Sleep(DWORD ms) { sim::advanceMs(ms); }

void WINAPI GetSystemTime(LPSYSTEMTIME st)
{
    const QDateTime d = QDateTime::fromMSecsSinceEpoch(sim::nowFileTime() / 10000 - 11644473600000LL, Qt::UTC);
    st->wYear = WORD(d.date().year()); st->wMonth = WORD(d.date().month()); st->wDay = WORD(d.date().day());
    st->wDayOfWeek = WORD(d.date().dayOfWeek() % 7);
    st->wHour = WORD(d.time().hour()); st->wMinute = WORD(d.time().minute()); st->wSecond = WORD(d.time().second());
    st->wMilliseconds = WORD(d.time().msec());
}
void WINAPI GetSystemTimeAsFileTime(LPFILETIME ft)
{
    const quint64 t = quint64(sim::nowFileTime());
    ft->dwLowDateTime = DWORD(t); ft->dwHighDateTime = DWORD(t >> 32);
}
BOOL WINAPI SystemTimeToFileTime(const SYSTEMTIME *st, LPFILETIME ft)
{
    const QDateTime d(QDate(st->wYear, st->wMonth, st->wDay), QTime(st->wHour, st->wMinute, st->wSecond, st->wMilliseconds), Qt::UTC);
    const quint64 t = quint64(d.toMSecsSinceEpoch() + 11644473600000LL) * 10000;
    ft->dwLowDateTime = DWORD(t); ft->dwHighDateTime = DWORD(t >> 32);
    return TRUE;
}
BOOL WINAPI FileTimeToSystemTime(const FILETIME *ft, LPSYSTEMTIME st)
{
    const quint64 t = quint64(ft->dwLowDateTime) | quint64(ft->dwHighDateTime) << 32;
    const QDateTime d = QDateTime::fromMSecsSinceEpoch(qint64(t / 10000) - 11644473600000LL, Qt::UTC);
    st->wYear = WORD(d.date().year()); st->wMonth = WORD(d.date().month()); st->wDay = WORD(d.date().day());
    st->wDayOfWeek = WORD(d.date().dayOfWeek() % 7);
    st->wHour = WORD(d.time().hour()); st->wMinute = WORD(d.time().minute()); st->wSecond = WORD(d.time().second());
    st->wMilliseconds = WORD(d.time().msec());
    return TRUE;
}
BOOL WINAPI SystemTimeToTzSpecificLocalTime(const TIME_ZONE_INFORMATION *, const SYSTEMTIME *a, LPSYSTEMTIME b) { *b = *a; return TRUE; }
LONG WINAPI CompareFileTime(const FILETIME *a, const FILETIME *b)
{
    const quint64 x = quint64(a->dwLowDateTime) | quint64(a->dwHighDateTime) << 32;
    const quint64 y = quint64(b->dwLowDateTime) | quint64(b->dwHighDateTime) << 32;
    return x < y ? -1 : x > y ? 1 : 0;
}
static void fillFad(sim::Node *n, WIN32_FILE_ATTRIBUTE_DATA *d)
{
    memset(d, 0, sizeof *d);
    d->dwFileAttributes = n->dir ? FILE_ATTRIBUTE_DIRECTORY : FILE_ATTRIBUTE_ARCHIVE;
    if (n->readOnly) d->dwFileAttributes |= FILE_ATTRIBUTE_READONLY;
    const quint64 t = quint64(n->time);
    d->ftLastWriteTime.dwLowDateTime = DWORD(t);
    d->ftLastWriteTime.dwHighDateTime = DWORD(t >> 32);
    // creation and access times differ from the write time on purpose
    const quint64 c = t - 36000000000ULL * 24 * 365;
    d->ftCreationTime.dwLowDateTime = DWORD(c);
    d->ftCreationTime.dwHighDateTime = DWORD(c >> 32);
    const quint64 a = t + 36000000000ULL * 24 * 365;
    d->ftLastAccessTime.dwLowDateTime = DWORD(a);
    d->ftLastAccessTime.dwHighDateTime = DWORD(a >> 32);
    if (!n->dir) d->nFileSizeLow = DWORD(sim::fsRead(n).size());
}
BOOL WINAPI GetFileAttributesExW(LPCWSTR name, GET_FILEEX_INFO_LEVELS, LPVOID out)
{
    const QString p = fromW(name);
    sim::Node *n = nullptr;
    if (p.startsWith(QLatin1String("\\\\?\\"))) {
        // no normalisation with this prefix: forward slashes and dot components do not work
        const QString q = p.mid(4);
        const bool raw = q.contains(QLatin1Char('/')) || q.contains(QLatin1String("\\..\\")) || q.contains(QLatin1String("\\.\\"))
                || q.contains(QLatin1String("\\\\")) || q.endsWith(QLatin1String("\\..")) || q.endsWith(QLatin1String("\\."));
        if (!raw) n = sim::fsFind(q);
    } else if (p.length() < MAX_PATH) {
        n = sim::fsFind(p);
    }
    if (!n) { g_lastError = ERROR_FILE_NOT_FOUND; return FALSE; }
    fillFad(n, static_cast<WIN32_FILE_ATTRIBUTE_DATA *>(out));
    return TRUE;
}
DWORD WINAPI GetFileAttributesW(LPCWSTR name)
{
    WIN32_FILE_ATTRIBUTE_DATA d;
    return GetFileAttributesExW(name, GetFileExInfoStandard, &d) ? d.dwFileAttributes : INVALID_FILE_ATTRIBUTES;
}
BOOL WINAPI DeleteFileW(LPCWSTR name) { return sim::fsRemove(fromW(name), "jom") ? TRUE : FALSE; }

static PHANDLER_ROUTINE g_handler = nullptr;
BOOL WINAPI SetConsoleCtrlHandler(PHANDLER_ROUTINE r, BOOL add)
{
    g_handler = add ? r : nullptr;
    if (g_handler) sim::g_ctrlHandler = [] { g_handler(CTRL_C_EVENT); };
    else sim::g_ctrlHandler = nullptr;
    return TRUE;
}
BOOL WINAPI GenerateConsoleCtrlEvent(DWORD ev, DWORD group)
{
    sim::trace({{QStringLiteral("e"), QStringLiteral("genctrl")}, {QStringLiteral("ev"), int(ev)}, {QStringLiteral("group"), int(group)}});
    return TRUE;
}
void WINAPI ExitProcess(DWORD c) { exit(int(c)); }
} // extern "C"

// ------------------------------------------------------------------ QWinEventNotifier
struct NotifierState : sim::NotifierBase {
    QWinEventNotifier *q = nullptr;
    HANDLE h = nullptr;
    bool enabled = false;
    bool signaled() const override { if (!enabled) return false; HandleObj *o = hobj(h); return o && o->proc && sim::procExitVisible(o->proc); }
    void fire() override;
};
static QMap<const QWinEventNotifier *, NotifierState *> g_ns;
void NotifierState::fire()
{
    void *hh = h;
    void *args[] = {nullptr, &hh};
    QMetaObject::activate(q, &QWinEventNotifier::staticMetaObject, 0, args);
}
QWinEventNotifier::QWinEventNotifier(QObject *parent) : QObject(parent)
{
    NotifierState *s = new NotifierState;
    s->q = this;
    g_ns.insert(this, s);
    sim::notifierAdd(s);
}
QWinEventNotifier::QWinEventNotifier(HANDLE h, QObject *parent) : QWinEventNotifier(parent) { setHandle(h); setEnabled(true); }
QWinEventNotifier::~QWinEventNotifier() { NotifierState *s = g_ns.take(this); sim::notifierRemove(s); delete s; }
void QWinEventNotifier::setHandle(HANDLE h) { setEnabled(false); g_ns[this]->h = h; }
Qt::HANDLE QWinEventNotifier::handle() const { return g_ns[this]->h; }
bool QWinEventNotifier::isEnabled() const { return g_ns[this]->enabled; }
void QWinEventNotifier::setEnabled(bool e) { g_ns[this]->enabled = e; }
bool QWinEventNotifier::event(QEvent *e) { return QObject::event(e); }

// ------------------------------------------------------------------ Qt classes
namespace simqt { bool exists(const QString &p) { return sim::fsFind(p) != nullptr; } }

VFileInfo::VFileInfo(const QFile &f) : VFileInfo(f.fileName()) {}
VFileInfo::VFileInfo(const QDir &dir, const QString &f) : VFileInfo(static_cast<const VDir &>(dir).filePath(f)) {}
bool VFileInfo::exists() const { return sim::fsFind(m_p) != nullptr; }
bool VFileInfo::exists(const QString &f) { return sim::fsFind(f) != nullptr; }
QString VFileInfo::absoluteFilePath() const { return m_p.isEmpty() ? QString() : sim::winAbs(m_p); }
QString VFileInfo::canonicalFilePath() const { sim::Node *n = sim::fsFind(m_p); return n ? n->path : QString(); }
static int nameStart(const QString &p)
{
    int i = p.lastIndexOf(QLatin1Char('/')) + 1;
    if (i == 0 && p.length() >= 2 && p.at(1) == QLatin1Char(':')) i = 2;
    return i;
}
QString VFileInfo::fileName() const { return m_p.mid(nameStart(m_p)); }
QString VFileInfo::baseName() const { const QString f = fileName(); const int i = f.indexOf(QLatin1Char('.')); return i < 0 ? f : f.left(i); }
QString VFileInfo::completeBaseName() const { const QString f = fileName(); const int i = f.lastIndexOf(QLatin1Char('.')); return i < 0 ? f : f.left(i); }
QString VFileInfo::suffix() const { const QString f = fileName(); const int i = f.lastIndexOf(QLatin1Char('.')); return i < 0 ? QString() : f.mid(i + 1); }
QString VFileInfo::completeSuffix() const { const QString f = fileName(); const int i = f.indexOf(QLatin1Char('.')); return i < 0 ? QString() : f.mid(i + 1); }
QString VFileInfo::path() const
{
    const int s = m_p.lastIndexOf(QLatin1Char('/'));
    if (s < 0) {
        if (m_p.length() >= 2 && m_p.at(1) == QLatin1Char(':')) return m_p.left(2);
        return QStringLiteral(".");
    }
    if (s == 0) return QStringLiteral("/");
    if (s == 2 && m_p.at(1) == QLatin1Char(':')) return m_p.left(3);
    return m_p.left(s);
}
QString VFileInfo::absolutePath() const { return VFileInfo(absoluteFilePath()).path(); }
QString VFileInfo::canonicalPath() const { return exists() ? absolutePath() : QString(); }
QDir VFileInfo::dir() const { return VDir(path()); }
QDir VFileInfo::absoluteDir() const { return VDir(absolutePath()); }
bool VFileInfo::isWritable() const { sim::Node *n = sim::fsFind(m_p); return n && !n->readOnly; }
bool VFileInfo::isExecutable() const { return isFile() && m_p.endsWith(QLatin1String(".exe"), Qt::CaseInsensitive); }
bool VFileInfo::isRelative() const { return VDir::isRelativePath(m_p); }
bool VFileInfo::makeAbsolute() { if (!isRelative()) return false; m_p = absoluteFilePath(); return true; }
bool VFileInfo::isFile() const { sim::Node *n = sim::fsFind(m_p); return n && !n->dir; }
bool VFileInfo::isDir() const { sim::Node *n = sim::fsFind(m_p); return n && n->dir; }
bool VFileInfo::isRoot() const { return isDir() && absoluteFilePath().length() <= 3; }
qint64 VFileInfo::size() const { return sim::fsRead(sim::fsFind(m_p)).size(); }
QDateTime VFileInfo::lastModified() const
{
    sim::Node *n = sim::fsFind(m_p);
    return n ? QDateTime::fromMSecsSinceEpoch(n->time / 10000 - 11644473600000LL, Qt::UTC) : QDateTime();
}

VDir::VDir(const QString &p) : QDir(p), m_p(p.isEmpty() ? QStringLiteral(".") : fromNativeSeparators(p)) {}
VDir::VDir(const QString &p, const QString &, SortFlags, Filters) : VDir(p) {}
QString VDir::cleanPath(const QString &p) { return p.isEmpty() ? p : sim::winClean(p); }
QString VDir::currentPath() { return sim::g_cwd; }
bool VDir::setCurrent(const QString &p) { sim::Node *n = sim::fsFind(p); if (!n || !n->dir) return false; sim::g_cwd = n->path; return true; }
QString VDir::tempPath() { QString v; sim::envGet(QStringLiteral("TMP"), &v); return fromNativeSeparators(v); }
bool VDir::isRelativePath(const QString &p0)
{
    const QString p = fromNativeSeparators(p0);
    if (p.startsWith(QLatin1Char('/')) || p.startsWith(QLatin1Char(':'))) return false;
    return !(p.length() >= 2 && p.at(1) == QLatin1Char(':'));
}
QString VDir::absolutePath() const { return sim::winAbs(m_p); }
QString VDir::dirName() const { return VFileInfo(m_p).fileName(); }
QString VDir::filePath(const QString &f) const
{
    if (!isRelativePath(f)) return fromNativeSeparators(f);
    QString r = m_p;
    if (!r.endsWith(QLatin1Char('/'))) r += QLatin1Char('/');
    return r + fromNativeSeparators(f);
}
QString VDir::absoluteFilePath(const QString &f) const
{
    if (!isRelativePath(f)) return fromNativeSeparators(f);
    QString r = absolutePath();
    if (!f.isEmpty() && !r.endsWith(QLatin1Char('/'))) r += QLatin1Char('/');
    return r + fromNativeSeparators(f);
}
QString VDir::relativeFilePath(const QString &f) const
{
    const QStringList a = absolutePath().split(QLatin1Char('/'), QString::SkipEmptyParts);
    const QStringList b = sim::winAbs(f, absolutePath()).split(QLatin1Char('/'), QString::SkipEmptyParts);
    int i = 0;
    while (i < a.count() && i < b.count() && a.at(i).compare(b.at(i), Qt::CaseInsensitive) == 0) ++i;
    if (i == 0) return sim::winAbs(f);
    QStringList r;
    for (int k = i; k < a.count(); ++k) r << QStringLiteral("..");
    r += b.mid(i);
    return r.join(QLatin1Char('/'));
}
bool VDir::cd(const QString &d) { const QString n = sim::winAbs(d, absolutePath()); sim::Node *x = sim::fsFind(n); if (!x || !x->dir) return false; m_p = n; return true; }
bool VDir::exists() const { sim::Node *n = sim::fsFind(m_p); return n && n->dir; }
bool VDir::exists(const QString &f) const { return sim::fsFind(filePath(f)) != nullptr; }
static QString leaf(sim::Node *n) { return n->path.mid(n->path.lastIndexOf(QLatin1Char('/')) + 1); }
static bool passes(sim::Node *n, const QStringList &nf, QDir::Filters f)
{
    if (f != QDir::NoFilter && f != QDir::Filters(-1)) {
        const bool d = f & (QDir::Dirs | QDir::AllDirs), fl = f & QDir::Files;
        if ((d || fl) && ((n->dir && !d) || (!n->dir && !fl))) return false;
    }
    return nf.isEmpty() || QDir::match(nf, leaf(n));
}
QStringList VDir::entryList(Filters f, SortFlags) const { return entryList(QStringList(), f); }
QStringList VDir::entryList(const QStringList &nf, Filters f, SortFlags) const
{
    QStringList r;
    for (sim::Node *n : sim::fsList(m_p)) if (passes(n, nf, f)) r << leaf(n);
    return r;
}
bool VDir::mkdir(const QString &d) const { if (sim::fsFind(filePath(d))) return false; sim::fsMkdir(filePath(d)); return true; }
bool VDir::mkpath(const QString &d) const { sim::fsMkdir(filePath(d)); return true; }
bool VDir::remove(const QString &f) { return sim::fsRemove(filePath(f), "jom"); }

VDirIterator::VDirIterator(const QString &p, const QStringList &nf, QDir::Filters f, int fl) { fill(p, nf, f, fl); }
VDirIterator::VDirIterator(const QString &p, QDir::Filters f, int fl) { fill(p, QStringList(), f, fl); }
VDirIterator::VDirIterator(const QString &p, int fl) { fill(p, QStringList(), QDir::NoFilter, fl); }
void VDirIterator::fill(const QString &p0, const QStringList &nf, QDir::Filters f, int flags)
{
    const QString p = VDir::fromNativeSeparators(p0);
    m_path = p;
    const QString pre = p.endsWith(QLatin1Char('/')) || p.isEmpty() ? p : p + QLatin1Char('/');
    sim::Node *dn = sim::fsFind(p.isEmpty() ? QStringLiteral(".") : p);
    if (!dn || !dn->dir) return;
    if (!(f & QDir::NoDot) && (f == QDir::NoFilter || f == QDir::Filters(-1)))
        for (const char *d : {".", ".."})
            if (nf.isEmpty() || QDir::match(nf, QString::fromLatin1(d))) m_entries << pre + QString::fromLatin1(d);
    for (sim::Node *n : sim::fsList(p.isEmpty() ? QStringLiteral(".") : p)) {
        if (passes(n, nf, f)) m_entries << pre + leaf(n);
        if (n->dir && (flags & Subdirectories)) fill(pre + leaf(n), nf, f, flags);
    }
    m_path = p;
}

static void noteClosed(const QFile *f, const QString &name)
{
    if (f->isOpen() && --sim::g_openFiles[name] <= 0) sim::g_openFiles.remove(name);
}
VFile::~VFile() { noteClosed(this, m_name); if (isOpen()) QFile::close(); }
bool VFile::open(OpenMode mode)
{
    if (isOpen()) { qWarning("QFile::open: File (%s) already open", qPrintable(m_name)); return false; }
    if (mode & Append) mode |= WriteOnly;
    sim::Node *n;
    const bool trunc = (mode & Truncate) || ((mode & WriteOnly) && !(mode & (ReadOnly | Append | NewOnly)));
    if (mode & WriteOnly) {
        if ((mode & NewOnly) && sim::fsFind(m_name)) { setErrorString(QStringLiteral("File exists")); return false; }
        n = sim::fsOpenForWrite(m_name, "jom", trunc);
    } else {
        n = sim::fsFind(m_name);
        if (n && n->dir) n = nullptr;
    }
    if (!n) { setErrorString(QStringLiteral("No such file or directory")); return false; }
    const QByteArray p = "/proc/self/fd/" + QByteArray::number(n->fd);
    const int fd = ::open(p.constData(), (mode & WriteOnly) ? O_RDWR | O_CLOEXEC : O_RDONLY | O_CLOEXEC);
    if (fd < 0) { setErrorString(QStringLiteral("cannot open")); return false; }
    if (mode & Append) lseek(fd, 0, SEEK_END);
    if (!QFile::open(fd, mode & ~OpenMode(Truncate | NewOnly), AutoCloseHandle)) return false;
    ++sim::g_openFiles[m_name];
    return true;
}
void VFile::close()
{
    const bool w = isOpen() && (openMode() & WriteOnly);
    noteClosed(this, m_name);
    QFile::close();
    if (w) if (sim::Node *n = sim::fsFind(m_name)) sim::fsTouch(n);
}
bool VFile::remove() { close(); return sim::fsRemove(m_name, "jom"); }
bool VFile::remove(const QString &n) { return sim::fsRemove(n, "jom"); }
bool VFile::rename(const QString &n)
{
    close();
    sim::Node *a = sim::fsFind(m_name);
    if (!a || sim::fsFind(n)) return false;
    if (!sim::fsCreate(n, sim::fsRead(a), "jom")) return false;
    sim::fsRemove(m_name, "jom");
    m_name = n;
    return true;
}
bool VFile::copy(const QString &a, const QString &b)
{
    sim::Node *n = sim::fsFind(a);
    return n && !sim::fsFind(b) && sim::fsCreate(b, sim::fsRead(n), "jom");
}

VThread::VThread(QObject *parent) : QThread(parent) {}
VThread::~VThread() {}
void VThread::start(Priority)
{
    if (isRunning()) return;
    sim::Task *t = sim::newTask(objectName());
    m_task = t;
    setEventDispatcher(static_cast<QAbstractEventDispatcher *>(sim::newThreadDispatcher()));
    connect(this, &QThread::started, [t] { sim::taskEnter(t); });
    connect(this, &QThread::finished, [t] { sim::taskExit(t); });
    QThread::start();
}
bool VThread::wait(unsigned long ms)
{
    sim::Task *t = static_cast<sim::Task *>(m_task);
    if (!t) return true;
    if (ms == ULONG_MAX) {
        sim::block([t] { return t->done; });
    } else {
        const qint64 due = sim::nowMs() + qint64(ms);
        auto active = std::make_shared<bool>(true);
        sim::addTimerSource([due, active]() -> qint64 { return *active ? due : -1; });
        sim::block([t, due] { return t->done || sim::nowMs() >= due; });
        *active = false;
        if (!t->done) return false;
    }
    QThread::wait();
    return true;
}
int VThread::idealThreadCount() { return sim::idealThreads(); }
void VThread::msleep(unsigned long ms) { sim::advanceMs(qint64(ms)); sim::block([] { return true; }); }

VSystemSemaphore::VSystemSemaphore(const QString &key, int v, AccessMode m) { setKey(key, v, m); }
void VSystemSemaphore::setKey(const QString &key, int v, AccessMode m)
{
    m_key = key;
    if (key.isEmpty()) { m_error = KeyError; m_errorString = QStringLiteral("key error"); return; }
    if (sim::g_scenario.value(QLatin1String("semfail")).toBool()) { m_error = OutOfResources; m_errorString = QStringLiteral("out of resources"); return; }
    m_sem = sim::semOpen(key, v, m == Create);
}
bool VSystemSemaphore::acquire()
{
    if (!m_sem) return false;
    sim::semAcquire(static_cast<sim::Sem *>(m_sem), "jom");
    return true;
}
bool VSystemSemaphore::release(int n)
{
    if (!m_sem) return false;
    sim::semRelease(static_cast<sim::Sem *>(m_sem), n, "jom");
    return true;
}

QStringList VProcess::systemEnvironment() { return sim::envList(); }
QProcessEnvironment VProcessEnvironment::systemEnvironment()
{
    QProcessEnvironment e;
    for (const QString &s : sim::envList()) { const int i = s.indexOf(QLatin1Char(0x3d), 1); e.insert(s.left(i), s.mid(i + 1)); }
    return e;
}
qint64 VCoreApplication::applicationPid() { return sim::jomPid(); }
QStringList VCoreApplication::arguments() { return sim::scenarioArguments(); }

void VElapsedTimer::start() { m_t = sim::nowMs(); }
qint64 VElapsedTimer::restart() { const qint64 e = elapsed(); start(); return e; }
qint64 VElapsedTimer::elapsed() const { return sim::nowMs() - m_t; }

// qErrnoWarning(int, ...) exists in the Linux QtCore too.
