// Force-included in every translation unit of jom: Microsoft C runtime names and Qt classes with Windows
// behaviour on top of the simulated machine. jom's sources are compiled unmodified.
#pragma once
#ifdef __cplusplus
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <QtCore/QtCore>
#include <QtCore/qt_windows.h>

#define _O_TEXT 0x4000
#define _O_BINARY 0x8000
#define _fileno fileno
int _setmode(int fd, int mode);
size_t simFwrite(const void *buf, size_t size, size_t n, FILE *f);
wchar_t *_wcsdup(const wchar_t *s);
FILE *_wfopen(const wchar_t *name, const wchar_t *mode);
FILE *_wfreopen(const wchar_t *name, const wchar_t *mode, FILE *f);
int rand_s(unsigned int *value);
int simSystem(const char *cmd);
FILE *simFopen(const char *name, const char *mode);
FILE *simFreopen(const char *name, const char *mode, FILE *f);
int sim_wprintf(wchar_t *buf, size_t size, const wchar_t *fmt, ...);
#define swprintf_s(buf, size, ...) sim_wprintf(buf, size, __VA_ARGS__)
#define StringCchPrintf(buf, size, ...) (sim_wprintf(buf, size, __VA_ARGS__), S_OK)
#define StringCchPrintfW StringCchPrintf
#define _wsystem simWSystem
int simWSystem(const wchar_t *cmd);
#define system simSystem

namespace simqt { bool exists(const QString &); }

class VFileInfo : public QFileInfo
{
public:
    VFileInfo() {}
    explicit VFileInfo(const QString &f) : QFileInfo(f), m_p(QString(f).replace(QLatin1Char('\\'), QLatin1Char('/'))) {}
    explicit VFileInfo(const QFile &f);
    VFileInfo(const QDir &dir, const QString &f);
    void setFile(const QString &f) { m_p = QString(f).replace(QLatin1Char('\\'), QLatin1Char('/')); }
    void setFile(const QDir &dir, const QString &f) { *this = VFileInfo(dir, f); }
    bool exists() const;
    static bool exists(const QString &f);
    void refresh() {}
    QString filePath() const { return m_p; }
    QString absoluteFilePath() const;
    QString canonicalFilePath() const;
    QString fileName() const;
    QString baseName() const;
    QString completeBaseName() const;
    QString suffix() const;
    QString completeSuffix() const;
    QString path() const;
    QString absolutePath() const;
    QString canonicalPath() const;
    QDir dir() const;
    QDir absoluteDir() const;
    bool isReadable() const { return exists(); }
    bool isWritable() const;
    bool isExecutable() const;
    bool isHidden() const { return false; }
    bool isNativePath() const { return true; }
    bool isRelative() const;
    bool isAbsolute() const { return !isRelative(); }
    bool makeAbsolute();
    bool isFile() const;
    bool isDir() const;
    bool isRoot() const;
    bool isSymLink() const { return false; }
    qint64 size() const;
    QDateTime lastModified() const;
private:
    QString m_p;
};

class VDir : public QDir
{
public:
    VDir(const QString &path = QString());
    VDir(const QString &path, const QString &nameFilter, SortFlags sort = SortFlags(Name | IgnoreCase), Filters filter = AllEntries);
    static QChar separator() { return QLatin1Char('\\'); }
    static QChar listSeparator() { return QLatin1Char(';'); }
    static QString toNativeSeparators(const QString &p) { return QString(p).replace(QLatin1Char('/'), QLatin1Char('\\')); }
    static QString fromNativeSeparators(const QString &p) { return QString(p).replace(QLatin1Char('\\'), QLatin1Char('/')); }
    static QString cleanPath(const QString &p);
    static QString currentPath();
    static VDir current() { return VDir(currentPath()); }
    static bool setCurrent(const QString &);
    static VDir home() { return VDir(QStringLiteral("C:/")); }
    static QString homePath() { return QStringLiteral("C:/"); }
    static VDir root() { return VDir(QStringLiteral("C:/")); }
    static QString rootPath() { return QStringLiteral("C:/"); }
    static VDir temp() { return VDir(tempPath()); }
    static QString tempPath();
    static bool isRelativePath(const QString &p);
    static bool isAbsolutePath(const QString &p) { return !isRelativePath(p); }
    void setPath(const QString &p) { m_p = fromNativeSeparators(p); }
    QString path() const { return m_p; }
    QString absolutePath() const;
    QString canonicalPath() const { return absolutePath(); }
    QString dirName() const;
    QString filePath(const QString &f) const;
    QString absoluteFilePath(const QString &f) const;
    QString relativeFilePath(const QString &f) const;
    bool cd(const QString &d);
    bool cdUp() { return cd(QStringLiteral("..")); }
    bool exists() const;
    bool exists(const QString &f) const;
    bool isRelative() const { return isRelativePath(m_p); }
    bool isAbsolute() const { return !isRelative(); }
    bool isReadable() const { return exists(); }
    QStringList entryList(Filters f = NoFilter, SortFlags s = NoSort) const;
    QStringList entryList(const QStringList &nf, Filters f = NoFilter, SortFlags s = NoSort) const;
    bool mkdir(const QString &d) const;
    bool mkpath(const QString &d) const;
    bool remove(const QString &f);
private:
    QString m_p;
};

class VFile : public QFile
{
public:
    VFile() {}
    VFile(const QString &name) : QFile(name), m_name(name) {}
    explicit VFile(QObject *parent) : QFile(parent) {}
    VFile(const QString &name, QObject *parent) : QFile(name, parent), m_name(name) {}
    ~VFile() override;
    QString fileName() const override { return m_name; }
    void setFileName(const QString &n) { m_name = n; }
    bool open(OpenMode mode) override;
    bool open(FILE *f, OpenMode mode, FileHandleFlags h = DontCloseHandle) { return QFile::open(f, mode, h); }
    bool open(int fd, OpenMode mode, FileHandleFlags h = DontCloseHandle) { return QFile::open(fd, mode, h); }
    bool exists() const { return simqt::exists(m_name); }
    static bool exists(const QString &n) { return simqt::exists(n); }
    bool remove();
    static bool remove(const QString &n);
    bool rename(const QString &n);
    static bool copy(const QString &a, const QString &b);
    void close() override;
private:
    QString m_name;
};

class VDirIterator
{
public:
    enum IteratorFlag { NoIteratorFlags = 0, FollowSymlinks = 1, Subdirectories = 2 };
    VDirIterator(const QString &path, const QStringList &nameFilters, QDir::Filters filters = QDir::NoFilter, int flags = 0);
    VDirIterator(const QString &path, QDir::Filters filters, int flags = 0);
    VDirIterator(const QString &path, int flags = 0);
    bool hasNext() const { return m_i < m_entries.count(); }
    QString next() { m_cur = m_entries.value(m_i++); return m_cur; }
    QString filePath() const { return m_cur; }
    QString fileName() const { return VFileInfo(m_cur).fileName(); }
    VFileInfo fileInfo() const { return VFileInfo(m_cur); }
    QString path() const { return m_path; }
private:
    void fill(const QString &path, const QStringList &nf, QDir::Filters f, int flags);
    QString m_path, m_cur;
    QStringList m_entries;
    int m_i = 0;
};

class VThread : public QThread
{
public:
    explicit VThread(QObject *parent = nullptr);
    ~VThread() override;
    void start(Priority p = InheritPriority);
    bool wait(unsigned long ms = ULONG_MAX);
    static int idealThreadCount();
    static void msleep(unsigned long ms);
    static void sleep(unsigned long s) { msleep(s * 1000); }
    static void usleep(unsigned long) { msleep(1); }
    static void yieldCurrentThread() { msleep(0); }
private:
    void *m_task = nullptr;
};

class VSystemSemaphore
{
public:
    enum AccessMode { Open, Create };
    enum SystemSemaphoreError { NoError, PermissionDenied, KeyError, AlreadyExists, NotFound, OutOfResources, UnknownError };
    VSystemSemaphore(const QString &key, int initialValue = 0, AccessMode mode = Open);
    void setKey(const QString &key, int initialValue = 0, AccessMode mode = Open);
    QString key() const { return m_key; }
    bool acquire();
    bool release(int n = 1);
    SystemSemaphoreError error() const { return m_error; }
    QString errorString() const { return m_errorString; }
private:
    QString m_key, m_errorString;
    SystemSemaphoreError m_error = NoError;
    void *m_sem = nullptr;
};

class VProcess : public QProcess
{
public:
    using QProcess::QProcess;
    static QStringList systemEnvironment();
};
class VProcessEnvironment : public QProcessEnvironment
{
public:
    static QProcessEnvironment systemEnvironment();
};

class VCoreApplication : public QCoreApplication
{
public:
    VCoreApplication(int &argc, char **argv, int f = ApplicationFlags) : QCoreApplication(argc, argv, f) {}
    static VCoreApplication *instance() { return static_cast<VCoreApplication *>(QCoreApplication::instance()); }
    static QString applicationFilePath() { return QStringLiteral("C:/jom/jom.exe"); }
    static QString applicationDirPath() { return QStringLiteral("C:/jom"); }
    static qint64 applicationPid();
    static QStringList arguments();
};

class VElapsedTimer
{
public:
    void start();
    qint64 restart();
    qint64 elapsed() const;
    qint64 nsecsElapsed() const { return elapsed() * 1000000; }
    bool isValid() const { return m_t >= 0; }
    void invalidate() { m_t = -1; }
    bool hasExpired(qint64 t) const { return t >= 0 && elapsed() > t; }
private:
    qint64 m_t = -1;
};

#define QFileInfo VFileInfo
#define QDir VDir
#define QFile VFile
#define QDirIterator VDirIterator
#define QThread VThread
#define QSystemSemaphore VSystemSemaphore
#define QProcess VProcess
#define QProcessEnvironment VProcessEnvironment
#define QCoreApplication VCoreApplication
#define QElapsedTimer VElapsedTimer
#define freopen simFreopen
#define fwrite simFwrite
#endif
