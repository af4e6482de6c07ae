From 415e8b14c7309086fa2d763228aa2cd014b58895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:15 +0000
Subject: [PATCH 01/47] fix: wait for all commands of running targets after a
 failure

After a command failed, jom waited for one more process end of every running
target only. If such a target had further commands, the next one was started,
but jom did not wait for it and exited while the process was still running.
---
 src/jomlib/commandexecutor.cpp | 4 +++-
 src/jomlib/jomprocess.cpp      | 1 -
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index bd10324..4ee11a3 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -132,7 +132,9 @@ void CommandExecutor::finishExecution(bool commandFailed)
 
 void CommandExecutor::waitForFinished()
 {
-    m_process.waitForFinished();
+    // The current target might have more than one command left to execute.
+    while (m_active && m_process.isRunning())
+        m_process.waitForFinished();
 }
 
 inline bool commandLineStartsWithCommand(const QString &str, const QString &searchString)
diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 1e3335d..b54a0b0 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -454,7 +454,6 @@ bool Process::waitForFinished()
     connect(this, SIGNAL(finished(int, Process::ExitStatus)), &eventLoop, SLOT(quit()));
     eventLoop.exec();
 
-    m_state = NotRunning;
     return true;
 }
 
-- 
2.43.0


From 985585baee02a1416b8d8802218f48a7db0b9b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:15 +0000
Subject: [PATCH 02/47] fix: do not hang if a process exits with the value of
 STILL_ACTIVE

A process that ended with exit code 259 was taken for a running one forever.
---
 src/jomlib/jomprocess.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index b54a0b0..a5b494c 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -410,14 +410,16 @@ void Process::start(const QString &commandLine)
 
 void Process::tryToRetrieveExitCode()
 {
-    if (d->exitCode == STILL_ACTIVE)
-        if (!GetExitCodeProcess(d->hProcess, &d->exitCode))
-            d->exitCode = STILL_ACTIVE;
-
-    if (d->exitCode == STILL_ACTIVE)
+    // The value of STILL_ACTIVE is a valid exit code too.
+    // We must not use it to find out whether the process has ended.
+    if (WaitForSingleObject(d->hProcess, 0) != WAIT_OBJECT_0
+        || !GetExitCodeProcess(d->hProcess, &d->exitCode))
+    {
+        d->exitCode = STILL_ACTIVE;
         QTimer::singleShot(250, this, SLOT(tryToRetrieveExitCode()));
-    else
+    } else {
         onProcessFinished();
+    }
 }
 
 void Process::onProcessFinished()
-- 
2.43.0


From 52b7e499812f0340ec93573b2ba2ef7c71ae14cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 03/47] fix: do not give back a job token twice when a build
 fails

If a command failed while jom was waiting for a job token, the token was
released by onChildFinished and once more by waitForJobClient. The job server
then had more tokens than jobs allowed.
---
 src/jomlib/targetexecutor.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index a6eb9d9..a59b352 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -180,12 +180,16 @@ void TargetExecutor::waitForProcesses()
 
 void TargetExecutor::waitForJobClient()
 {
-    if (!m_jobClient->isAcquiring())
-        return;
-    QEventLoop loop;
-    connect(m_jobClient, &JobClient::acquired, &loop, &QEventLoop::quit);
-    loop.exec();
-    m_jobClient->release();
+    if (m_jobClient->isAcquiring()) {
+        QEventLoop loop;
+        connect(m_jobClient, &JobClient::acquired, &loop, &QEventLoop::quit);
+        loop.exec();
+    }
+    // Only give back what has not been released by onChildFinished yet.
+    while (m_jobAcquisitionCount > 0) {
+        m_jobClient->release();
+        m_jobAcquisitionCount--;
+    }
 }
 
 void TargetExecutor::finishBuild(int exitCode)
-- 
2.43.0


From 2a1568f7aee900eca4d8c416b3a22d556a668f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:00 +0000
Subject: [PATCH 04/47] fix: report cd into a file instead of aborting

After a "cd" to an existing file no further process could be started and jom
ended with a fatal error. Changing into a file is a failed command.
---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 4ee11a3..3cd91a9 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -378,7 +378,7 @@ bool CommandExecutor::exec_cd(const QString &commandLine)
 
     removeDoubleQuotes(args);
     QFileInfo fi(args);
-    if (!fi.exists()) {
+    if (!fi.isDir()) {
         QString msg = QLatin1String("Couldn't change working directory to %0.\n");
         writeToStandardError(msg.arg(args).toLocal8Bit());
         return false;
-- 
2.43.0


From 0bc4a9e838c2a06800b10e4aa7c48f6e85d6fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:19 +0000
Subject: [PATCH 05/47] fix: resolve the argument of cd relative to the current
 directory

A second "cd" in the commands of a target was resolved relative to the
directory jom was started in, not to the one the first "cd" changed to.
---
 src/jomlib/commandexecutor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 3cd91a9..6a25229 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -378,6 +378,10 @@ bool CommandExecutor::exec_cd(const QString &commandLine)
 
     removeDoubleQuotes(args);
     QFileInfo fi(args);
+    if (fi.isRelative() && !m_process.workingDirectory().isEmpty()) {
+        // There was a cd before. The path is relative to that directory.
+        fi.setFile(QDir(m_process.workingDirectory()), args);
+    }
     if (!fi.isDir()) {
         QString msg = QLatin1String("Couldn't change working directory to %0.\n");
         writeToStandardError(msg.arg(args).toLocal8Bit());
-- 
2.43.0


From 672ae3032215437232eace2db488fbbc2d596366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:19 +0000
Subject: [PATCH 06/47] fix: let only one command at a time write its output
 directly

When the executor that was not buffering finished, all other active ones were
switched to unbuffered output and their outputs got mixed.
---
 src/jomlib/targetexecutor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index a59b352..6f2e899 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -249,8 +249,10 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
         bool found = false;
         foreach (CommandExecutor *cmdex, m_processes) {
             if (cmdex->isActive()) {
+                // Only one executor may write directly, or outputs get mixed.
                 cmdex->setBufferedOutput(false);
                 found = true;
+                break;
             }
         }
         if (!found)
-- 
2.43.0


From 8e20f0f4d98b4e458968042240ecae1a244bede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:36 +0000
Subject: [PATCH 07/47] fix: do not lose the last output of a process

If the end of a process was noticed before the I/O thread had handled
everything the process wrote, the rest was dropped.
---
 src/jomlib/jomprocess.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index a5b494c..624cbdf 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -101,6 +101,7 @@ class OutputChannel : public IoCompletionPortObserver
 {
 public:
     bool startRead();
+    bool hasUnprocessedData() const;
     void completionPortNotified(DWORD numberOfBytes, DWORD errorCode);
 
     ProcessPrivate *d;
@@ -417,6 +418,9 @@ void Process::tryToRetrieveExitCode()
     {
         d->exitCode = STILL_ACTIVE;
         QTimer::singleShot(250, this, SLOT(tryToRetrieveExitCode()));
+    } else if (d->stdoutChannel.hasUnprocessedData() || d->stderrChannel.hasUnprocessedData()) {
+        // The I/O thread is still busy with the last output of the process.
+        QTimer::singleShot(1, this, SLOT(tryToRetrieveExitCode()));
     } else {
         onProcessFinished();
     }
@@ -492,6 +496,16 @@ bool OutputChannel::startRead()
     return true;
 }
 
+/**
+ * Returns true, if data has been read that was not handled by completionPortNotified yet.
+ * If there's nothing to read, the read operation is pending or has ended with an error.
+ */
+bool OutputChannel::hasUnprocessedData() const
+{
+    const ULONG_PTR statusSuccess = 0;
+    return pipe->overlapped.Internal == statusSuccess;
+}
+
 static void fwrite_binary(FILE *stream, const char *str, size_t count)
 {
     const int fd = _fileno(stream);
-- 
2.43.0


From ce0be5b0a4342c427f19101c7aa151df1bb55028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 08/47] fix: do not crash on a ! command of a target without
 dependents

---
 src/jomlib/commandexecutor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 6a25229..d051db9 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -79,6 +79,12 @@ void CommandExecutor::start(DescriptionBlock* target)
     }
 
     target->expandFileNameMacros();
+    if (target->m_commands.isEmpty()) {
+        // There were only commands to be executed for each dependent, and there are no dependents.
+        finishExecution(false);
+        return;
+    }
+
     cleanupTempFiles();
     createTempFiles();
 
-- 
2.43.0


From b8f200cfcf8875fbf81c8a26d06a9268d650bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:47 +0000
Subject: [PATCH 09/47] fix: read inline files of Unicode makefiles

---
 src/jomlib/makefilelinereader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jomlib/makefilelinereader.cpp b/src/jomlib/makefilelinereader.cpp
index ee20d86..9d3ec97 100644
--- a/src/jomlib/makefilelinereader.cpp
+++ b/src/jomlib/makefilelinereader.cpp
@@ -92,6 +92,13 @@ MakefileLine MakefileLineReader::readLine(bool bInlineFileMode)
 {
     if (bInlineFileMode) {
         m_nLineNumber++;
+        if (m_readLineImpl == &NMakeFile::MakefileLineReader::readLine_impl_unicode) {
+            // The text stream has already read ahead in m_file.
+            QString line = m_textStream.readLine();
+            if (!line.isNull())
+                line.append(QLatin1Char('\n'));
+            return MakefileLine{ line };
+        }
         return MakefileLine{ QString::fromLatin1(m_file.readLine()) };
     }
 
-- 
2.43.0


From 6abd15863dd0df881c387d767982f534401ad6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:48 +0000
Subject: [PATCH 10/47] fix: expand the commands of a target anew if it is
 executed again

The commands of a pseudo target that is built for several requested targets
still contained the names of removed inline files and of old dependents.
---
 src/jomlib/commandexecutor.cpp | 6 ++++++
 src/jomlib/commandexecutor.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index d051db9..82a7afc 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -78,6 +78,8 @@ void CommandExecutor::start(DescriptionBlock* target)
         return;
     }
 
+    // Keep the unexpanded commands. The target might be executed again for another root.
+    m_originalCommands = target->m_commands;
     target->expandFileNameMacros();
     if (target->m_commands.isEmpty()) {
         // There were only commands to be executed for each dependent, and there are no dependents.
@@ -133,6 +135,10 @@ void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitSt
 void CommandExecutor::finishExecution(bool commandFailed)
 {
     m_active = false;
+    if (!m_originalCommands.isEmpty()) {
+        m_pTarget->m_commands = m_originalCommands;
+        m_originalCommands.clear();
+    }
     emit finished(this, commandFailed);
 }
 
diff --git a/src/jomlib/commandexecutor.h b/src/jomlib/commandexecutor.h
index 04b01e1..ef845a6 100644
--- a/src/jomlib/commandexecutor.h
+++ b/src/jomlib/commandexecutor.h
@@ -86,6 +86,7 @@ private:
     };
 
     QList<TempFile>     m_tempFiles;
+    QList<Command>      m_originalCommands;
     int                 m_currentCommandIdx;
     QString             m_nextWorkingDir;
     bool                m_ignoreProcessErrors;
-- 
2.43.0


From 383a0ae8feddbf37ed75f996f544c84eb120d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:15 +0000
Subject: [PATCH 11/47] fix: create inline files right before their command

The inline files of all commands of a target used to be written before
the first command, so that a later file replaced an earlier one of the
same name, an inline file as first word was not replaced, and a dry run
left files behind.
---
 src/jomlib/commandexecutor.cpp | 84 ++++++++++++++++++----------------
 src/jomlib/commandexecutor.h   |  2 +-
 2 files changed, 45 insertions(+), 41 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 82a7afc..6d61bf6 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -88,7 +88,6 @@ void CommandExecutor::start(DescriptionBlock* target)
     }
 
     cleanupTempFiles();
-    createTempFiles();
 
     m_ignoreProcessErrors = false;
     m_currentCommandIdx = 0;
@@ -167,7 +166,15 @@ static bool startsWithShellBuiltin(const QString &commandLine)
 
 void CommandExecutor::executeCurrentCommandLine()
 {
-    const Command& cmd = m_pTarget->m_commands.at(m_currentCommandIdx);
+    Command& cmd = m_pTarget->m_commands[m_currentCommandIdx];
+    try {
+        createTempFiles(cmd);
+    } catch (const Exception &e) {
+        writeToStandardError("Error: " + e.message().toLocal8Bit() + "\n");
+        finishExecution(true);
+        return;
+    }
+
     QString commandLine = cmd.m_commandLine;
 
     if (m_pTarget->makefile()->options()->dryRun
@@ -268,26 +275,33 @@ void CommandExecutor::executeCurrentCommandLine()
         qFatal("Can't start command: %s", qPrintable(commandLine));
 }
 
-void CommandExecutor::createTempFiles()
+void CommandExecutor::createTempFiles(Command &cmd)
 {
-    QList<Command>::iterator it = m_pTarget->m_commands.begin();
-    QList<Command>::iterator itEnd = m_pTarget->m_commands.end();
-    for (; it != itEnd; ++it) {
-        Command& cmd = *it;
-        foreach (InlineFile* inlineFile, cmd.m_inlineFiles) {
-            QString fileName;
-            if (inlineFile->m_filename.isEmpty()) {
-                do {
-                    QString simplifiedTargetName = m_pTarget->targetName();
-                    simplifiedTargetName = fileNameFromFilePath(simplifiedTargetName);
-                    fileName = m_tempPath + simplifiedTargetName + QLatin1Char('.')
-                               + QString::number(GetCurrentProcessId()) + QLatin1Char('.')
-                               + QString::number(GetTickCount() - m_startUpTickCount)
-                               + QLatin1Literal(".jom");
-                } while (QFile::exists(fileName));
-            } else
-                fileName = inlineFile->m_filename;
+    const bool dryRun = m_pTarget->makefile()->options()->dryRun;
+    foreach (InlineFile* inlineFile, cmd.m_inlineFiles) {
+        QString fileName;
+        if (inlineFile->m_filename.isEmpty()) {
+            do {
+                QString simplifiedTargetName = m_pTarget->targetName();
+                simplifiedTargetName = fileNameFromFilePath(simplifiedTargetName);
+                fileName = m_tempPath + simplifiedTargetName + QLatin1Char('.')
+                           + QString::number(GetCurrentProcessId()) + QLatin1Char('.')
+                           + QString::number(GetTickCount() - m_startUpTickCount)
+                           + QLatin1Literal(".jom");
+            } while (QFile::exists(fileName));
+        } else
+            fileName = inlineFile->m_filename;
+
+        const QByteArray content = inlineFile->m_content.toLocal8Bit();
+        if (m_pTarget->makefile()->options()->dumpInlineFiles) {
+            writeToStandardOutput("---");
+            writeToStandardOutput(fileName.toLocal8Bit());
+            writeToStandardOutput("---\n");
+            writeToStandardOutput(content);
+            writeToStandardOutput("---end of inline file---\n");
+        }
 
+        if (!dryRun) {
             TempFile tempFile;
             tempFile.keep = inlineFile->m_keep;
             tempFile.file = new QFile(fileName);
@@ -297,31 +311,21 @@ void CommandExecutor::createTempFiles()
                 throw Exception(msg.arg(fileName));
             }
 
-            const QByteArray content = inlineFile->m_content.toLocal8Bit();
-            if (m_pTarget->makefile()->options()->dumpInlineFiles) {
-                writeToStandardOutput("---");
-                writeToStandardOutput(fileName.toLocal8Bit());
-                writeToStandardOutput("---\n");
-                writeToStandardOutput(content);
-                writeToStandardOutput("---end of inline file---\n");
-            }
-
             // TODO: do something with inlineFile->m_unicode;
             tempFile.file->write(content);
             tempFile.file->close();
-
-            QString replacement = QDir::toNativeSeparators(tempFile.file->fileName());
-            if (replacement.contains(QLatin1Char(' ')) || replacement.contains(QLatin1Char('\t'))) {
-                replacement.prepend(QLatin1Char('"'));
-                replacement.append(QLatin1Char('"'));
-            }
-
-            int idx = cmd.m_commandLine.indexOf(QLatin1String("<<"));
-            if (idx > 0)
-                cmd.m_commandLine.replace(idx, 2, replacement);
-
             m_tempFiles.append(tempFile);
         }
+
+        QString replacement = QDir::toNativeSeparators(fileName);
+        if (replacement.contains(QLatin1Char(' ')) || replacement.contains(QLatin1Char('\t'))) {
+            replacement.prepend(QLatin1Char('"'));
+            replacement.append(QLatin1Char('"'));
+        }
+
+        int idx = cmd.m_commandLine.indexOf(QLatin1String("<<"));
+        if (idx >= 0)
+            cmd.m_commandLine.replace(idx, 2, replacement);
     }
 }
 
diff --git a/src/jomlib/commandexecutor.h b/src/jomlib/commandexecutor.h
index ef845a6..d28a33a 100644
--- a/src/jomlib/commandexecutor.h
+++ b/src/jomlib/commandexecutor.h
@@ -66,7 +66,7 @@ private slots:
 private:
     void finishExecution(bool commandFailed);
     void executeCurrentCommandLine();
-    void createTempFiles();
+    void createTempFiles(Command &cmd);
     void writeToChannel(const QByteArray& data, FILE *channel);
     void writeToStandardOutput(const QByteArray& data);
     void writeToStandardError(const QByteArray& data);
-- 
2.43.0


From 6d149f1c989b74c9abf1da73f8dc3a3cf392e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:38 +0000
Subject: [PATCH 12/47] fix: expand macros in the names of inline files of
 inference rules

---
 src/jomlib/makefile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index c06cb7c..192a7ca 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -631,6 +631,8 @@ void Makefile::applyInferenceRule(DescriptionBlock* target, const InferenceRule*
         foreach (InlineFile* inlineFile, command.m_inlineFiles) {
             inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);
             inlineFile->m_content.replace(fileNameMacroString, inferredDependent);
+            inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);
+            inlineFile->m_filename.replace(fileNameMacroString, inferredDependent);
         }
         command.m_commandLine = m_macroTable->expandMacros(command.m_commandLine);
         command.evaluateModifiers();
@@ -661,6 +663,8 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
         foreach (InlineFile* inlineFile, command.m_inlineFiles) {
             inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);
             inlineFile->m_content.replace(fileNameMacroString, inferredDependents);
+            inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);
+            inlineFile->m_filename.replace(fileNameMacroString, inferredDependents);
         }
         command.m_commandLine = m_macroTable->expandMacros(command.m_commandLine);
         command.evaluateModifiers();
-- 
2.43.0


From cac7dc1a6c64e8584b10bf199c23d1eedf847bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:31 +0000
Subject: [PATCH 13/47] fix: find dependents given relative to the makefile's
 directory everywhere

Only the dependency graph knew that a dependent "foo" may be the target
"C:\dir\foo". The cycle check, the time stamp check and the selection
of inference rules did not, so that a cycle of such targets was not
reported and rules were not applied.
---
 src/jomlib/dependencygraph.cpp |  8 ++------
 src/jomlib/makefile.cpp        | 13 +++++++++++++
 src/jomlib/makefile.h          |  2 ++
 src/jomlib/parser.cpp          |  6 +++---
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index bf8cfbc..3ecc1c0 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -116,7 +116,7 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
         FileTime latestDependentTime;
         foreach (const QString& dependentName, target->m_dependents) {
             FileTime ts;
-            DescriptionBlock *dependent = target->makefile()->target(dependentName);
+            DescriptionBlock *dependent = target->makefile()->dependent(dependentName);
             if (dependent) {
                 ts = dependent->m_timeStamp;
                 if (!dependent->m_bFileExists && !dependent->m_commands.isEmpty()) {
@@ -188,11 +188,7 @@ void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
 
     foreach (const QString& dependentName, node->target->m_dependents) {
         Makefile* const makefile = node->target->makefile();
-        DescriptionBlock* dependent = makefile->target(dependentName);
-        if (!dependent) {
-            // We don't know dependent "foo" but it may have been defined as "C:\MySourceDir\foo"
-            dependent = makefile->target(makefile->dirPath() + QDir::separator() + dependentName);
-        }
+        DescriptionBlock* dependent = makefile->dependent(dependentName);
         if (!dependent) {
             if (!FastFileInfo(dependentName).exists()) {
                 QByteArray msg = "Error: dependent '";
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 192a7ca..6eee6ac 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -434,6 +434,19 @@ void Makefile::clear()
     m_inferenceRules.clear();
 }
 
+/**
+ * Returns the target for the given name of a dependent.
+ */
+DescriptionBlock* Makefile::dependent(const QString& name) const
+{
+    DescriptionBlock* result = target(name);
+    if (!result) {
+        // We don't know dependent "foo" but it may have been defined as "C:\MySourceDir\foo"
+        result = target(dirPath() + QDir::separator() + name);
+    }
+    return result;
+}
+
 const QString &Makefile::dirPath() const
 {
     if (m_dirPath.isEmpty()) {
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 28e0632..5b301b7 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -173,6 +173,8 @@ public:
         return result;
     }
 
+    DescriptionBlock* dependent(const QString& name) const;
+
     const QHash<QString, DescriptionBlock*>& targets() const
     {
         return m_targets;
diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 8862405..48b6147 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -671,7 +671,7 @@ void Parser::checkForCycles(DescriptionBlock* target)
 #endif
     target->m_bVisitedByCycleCheck = true;
     for (int i = target->m_dependents.count(); --i >= 0;) {
-        DescriptionBlock *const dep = m_makefile->target(target->m_dependents.at(i));
+        DescriptionBlock *const dep = m_makefile->dependent(target->m_dependents.at(i));
         checkForCycles(dep);
     }
     target->m_bVisitedByCycleCheck = false;
@@ -688,7 +688,7 @@ void Parser::resetCycleChecker(DescriptionBlock* target)
         return;
 
     for (int i = target->m_dependents.count(); --i >= 0;) {
-        DescriptionBlock *const dep = m_makefile->target(target->m_dependents.at(i));
+        DescriptionBlock *const dep = m_makefile->dependent(target->m_dependents.at(i));
         resetCycleChecker(dep);
     }
 
@@ -736,7 +736,7 @@ void Parser::preselectInferenceRules(DescriptionBlock *target)
     }
 
     foreach (const QString &dependentName, target->m_dependents) {
-        DescriptionBlock *dependent = m_makefile->target(dependentName);
+        DescriptionBlock *dependent = m_makefile->dependent(dependentName);
         if (dependent) {
             preselectInferenceRules(dependent);
         } else {
-- 
2.43.0


From e449a9e2a8266c2295cf6a9504ffa92ce4b92e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 14/47] fix: treat targets of a dry run as updated

A dry run kept using the old time stamps of targets it would rebuild, so
that it did not print the commands of targets depending on them.
---
 src/jomlib/dependencygraph.cpp | 5 ++++-
 src/jomlib/makefile.cpp        | 7 ++++++-
 src/jomlib/makefile.h          | 1 +
 src/jomlib/targetexecutor.cpp  | 6 ++++++
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 3ecc1c0..520f77a 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -103,7 +103,10 @@ void DependencyGraph::markParentsRecursivlyUnbuildable(Node *node)
 bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
 {
     FastFileInfo fi(target->targetName());
-    if (fi.exists()) {
+    if (target->m_dryRunTimeStamp.isValid()) {
+        target->m_bFileExists = true;
+        target->m_timeStamp = target->m_dryRunTimeStamp;
+    } else if (fi.exists()) {
         target->m_bFileExists = true;
         target->m_timeStamp = fi.lastModified();
     }
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 6eee6ac..e0a2aee 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -348,8 +348,13 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
                 }
                 replacementLength = 1;
                 FileTime targetTimeStamp = FastFileInfo(targetName()).lastModified();
+                if (m_dryRunTimeStamp.isValid())
+                    targetTimeStamp = m_dryRunTimeStamp;
                 foreach (const QString& dependentName, dependentCandidates) {
                     FileTime dependentTimeStamp = FastFileInfo(dependentName).lastModified();
+                    const DescriptionBlock *dependent = m_pMakefile->dependent(dependentName);
+                    if (dependent && dependent->m_dryRunTimeStamp.isValid())
+                        dependentTimeStamp = dependent->m_dryRunTimeStamp;
                     if (targetTimeStamp <= dependentTimeStamp) {
                         results += dependentName;
                     }
@@ -524,7 +529,7 @@ void Makefile::filterRulesByDependent(QVector<InferenceRule*>& rules, const QStr
         QString dependentName = rule->m_fromSearchPath + QDir::separator() +
                                 baseName + rule->m_fromExtension;
 
-        DescriptionBlock* depTarget = m_targets.value(dependentName);
+        DescriptionBlock* depTarget = target(rule->inferredDependent(targetName));
         if ((depTarget && depTarget->m_bFileExists) || QFile::exists(dependentName)) {
             ++it;
             continue;
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 5b301b7..ffcc31c 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -101,6 +101,7 @@ public:
 
     QStringList m_dependents;
     FileTime m_timeStamp;
+    FileTime m_dryRunTimeStamp;     // set if the target has been built by a dry run
     bool m_bFileExists;
     bool m_bVisitedByCycleCheck;
     bool m_bNoCyclesRootedHere;
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 6f2e899..188f404 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -238,6 +238,12 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
         }
     }
     FastFileInfo::clearCacheForFile(executor->target()->targetName());
+    if (m_makefile->options()->dryRun) {
+        // Act as if the commands had updated the target.
+        executor->target()->m_dryRunTimeStamp = FileTime::currentTime();
+        executor->target()->m_timeStamp = executor->target()->m_dryRunTimeStamp;
+        executor->target()->m_bFileExists = true;
+    }
     m_depgraph->removeLeaf(executor->target());
     if (m_jobAcquisitionCount > 0) {
         m_jobClient->release();
-- 
2.43.0


From 9e29b67e3e68771441abd69403e9604532b92108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 15/47] fix: let parents of all targets of a batch wait for the
 batch

Only the first target of a batch was known to be running. Targets that
depend on another one were built too early or, with a cached time stamp,
not at all. Targets that cannot be built because of a failure are no
longer made part of a batch.
---
 src/jomlib/dependencygraph.cpp | 19 +++++++++++++++++++
 src/jomlib/makefile.cpp        |  2 ++
 src/jomlib/makefile.h          |  1 +
 3 files changed, 22 insertions(+)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 520f77a..07acdab 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -102,6 +102,11 @@ void DependencyGraph::markParentsRecursivlyUnbuildable(Node *node)
 
 bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
 {
+    if (target->m_batchTarget) {
+        FastFileInfo::clearCacheForFile(target->targetName());
+        target->m_dryRunTimeStamp = target->m_batchTarget->m_dryRunTimeStamp;
+    }
+
     FastFileInfo fi(target->targetName());
     if (target->m_dryRunTimeStamp.isValid()) {
         target->m_bFileExists = true;
@@ -321,12 +326,26 @@ DescriptionBlock *DependencyGraph::findAvailableTarget(bool ignoreTimeStamps)
     QSet<Makefile*> makefileSet;
     QMultiHash<Makefile*, DescriptionBlock*> multiHash;
     foreach (Node *leaf, m_leaves) {
+        if (leaf->state == Node::Unbuildable) {
+            // must not become part of a batch
+            leaf->target->makefile()->applyInferenceRules(QList<DescriptionBlock*>() << leaf->target);
+            continue;
+        }
         makefileSet.insert(leaf->target->makefile());
         multiHash.insert(leaf->target->makefile(), leaf->target);
     }
     foreach (Makefile *mf, makefileSet)
         mf->applyInferenceRules(multiHash.values(mf));
 
+    // The targets of a batch are finished when the commands of the batch are finished.
+    foreach (Node *leaf, m_leaves) {
+        Node *batchNode = m_nodeContainer.value(leaf->target->m_batchTarget);
+        if (batchNode) {
+            addEdge(leaf, batchNode);
+            m_leaves.removeAll(leaf);
+        }
+    }
+
     // return the first leaf that is not currently executed
     foreach (Node *leaf, m_leaves) {
         if (leaf->state != Node::ExecutingState) {
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index e0a2aee..c1d2844 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -116,6 +116,7 @@ DescriptionBlock::DescriptionBlock(Makefile* mkfile)
     m_bVisitedByCycleCheck(false),
     m_bNoCyclesRootedHere(false),
     m_bInferenceRulesPreselected(false),
+    m_batchTarget(0),
     m_canAddCommands(ACSUnknown),
     m_pMakefile(mkfile)
 {
@@ -664,6 +665,7 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
     DescriptionBlock *executingTarget = batch.first();
     foreach (DescriptionBlock *target, batch) {
         target->m_inferenceRules.clear();
+        target->m_batchTarget = (target == executingTarget) ? 0 : executingTarget;
         QString inferredDependent = rule->inferredDependent(target->targetName());
         if (!executingTarget->m_dependents.contains(inferredDependent))
             executingTarget->m_dependents.append(inferredDependent);
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index ffcc31c..1aca1ae 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -107,6 +107,7 @@ public:
     bool m_bNoCyclesRootedHere;
     bool m_bInferenceRulesPreselected;
     QVector<InferenceRule*> m_inferenceRules;
+    DescriptionBlock *m_batchTarget;    // the target whose commands build this one too
 
     enum AddCommandsState { ACSUnknown, ACSEnabled, ACSDisabled };
     AddCommandsState m_canAddCommands;
-- 
2.43.0


From 87fed713774e6596ac658f63dd22a07eb990c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:04 +0000
Subject: [PATCH 16/47] fix: apply all .SYNC points

The first sync point for a plain file made jom ignore the ones that came
later in the hash. Targets only known from inference rules were never
synchronized, and a plain file between two sync points cut the order.
---
 src/jomlib/parser.cpp | 14 ++++++++------
 src/jomlib/parser.h   |  3 ++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 48b6147..0aa26a8 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -127,12 +127,12 @@ void Parser::apply(Preprocessor* pp,
     m_makefile->calculateInferenceRulePriorities(m_suffixes);
 
     // translate sync points from .SYNC targets into real dependencies
-    for (QHash<QString, QStringList>::const_iterator it = m_syncPoints.constBegin();
+    for (QMap<QString, QStringList>::const_iterator it = m_syncPoints.constBegin();
         it != m_syncPoints.constEnd(); ++it)
     {
-        DescriptionBlock *target = m_makefile->target(it.key());
+        DescriptionBlock *target = m_makefile->dependent(it.key());
         if (!target)
-            break;
+            continue;
         target->m_dependents += it.value();
         target->m_dependents.removeDuplicates();
     }
@@ -148,6 +148,9 @@ void Parser::apply(Preprocessor* pp,
         DescriptionBlock *target = m_makefile->target(targetName);
         checkForCycles(target);
         preselectInferenceRules(target);
+        // targets created for inference rules may have .SYNC dependents
+        resetCycleChecker(target);
+        checkForCycles(target);
     }
     // reset the droppings left by the cycle checker
     foreach (const QString& targetName, m_activeTargets) {
@@ -425,14 +428,12 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
     // handle the special .SYNC dependents
     {
         QStringList syncDeps;
-        int k = 0;
         for (int i=0; i < dependents.count();) {
             if (dependents.at(i) == QLatin1String(".SYNC")) {
                 dependents.removeAt(i);
                 if (dependents.count() == i)
                     break;
-                syncDeps = dependents.mid(k, i - k);
-                k = i;
+                syncDeps = dependents.mid(0, i);
             } else {
                 m_syncPoints[dependents.at(i)] += syncDeps;
                 ++i;
@@ -746,6 +747,7 @@ void Parser::preselectInferenceRules(DescriptionBlock *target)
             if (!rules.isEmpty()) {
                 dependent = createTarget(dependentFileName);
                 dependent->m_inferenceRules = rules;
+                dependent->m_dependents = m_syncPoints.value(dependentName);
             }
         }
     }
diff --git a/src/jomlib/parser.h b/src/jomlib/parser.h
index f746ba1..2661253 100644
--- a/src/jomlib/parser.h
+++ b/src/jomlib/parser.h
@@ -28,6 +28,7 @@
 
 #include <QRegExp>
 #include <QHash>
+#include <QMap>
 #include <QVector>
 #include <QStack>
 #include <QStringList>
@@ -82,7 +83,7 @@ private:
     Makefile*                   m_makefile;
     QStringList                 m_suffixes;
     QStringList                 m_activeTargets;
-    QHash<QString, QStringList> m_syncPoints;
+    QMap<QString, QStringList> m_syncPoints;
     QHash<QString, QVector<InferenceRule *> > m_ruleIdxByToExtension;
 };
 
-- 
2.43.0


From c1726358007eb4461e40971ffdf0a70d846d681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 17/47] fix: forget the time stamps of files before building
 the next goal

---
 src/jomlib/fastfileinfo.cpp   | 5 +++++
 src/jomlib/fastfileinfo.h     | 1 +
 src/jomlib/targetexecutor.cpp | 1 +
 3 files changed, 7 insertions(+)

diff --git a/src/jomlib/fastfileinfo.cpp b/src/jomlib/fastfileinfo.cpp
index 6926a34..95dae39 100644
--- a/src/jomlib/fastfileinfo.cpp
+++ b/src/jomlib/fastfileinfo.cpp
@@ -96,4 +96,9 @@ void FastFileInfo::clearCacheForFile(const QString &fileName)
     fadHash.remove(fileName);
 }
 
+void FastFileInfo::clearCache()
+{
+    fadHash.clear();
+}
+
 } // NMakeFile
diff --git a/src/jomlib/fastfileinfo.h b/src/jomlib/fastfileinfo.h
index a201e85..0540d47 100644
--- a/src/jomlib/fastfileinfo.h
+++ b/src/jomlib/fastfileinfo.h
@@ -39,6 +39,7 @@ public:
     FileTime lastModified() const;
 
     static void clearCacheForFile(const QString &fileName);
+    static void clearCache();
 
     struct InternalType
     {
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 188f404..562d4ce 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -141,6 +141,7 @@ void TargetExecutor::startProcesses()
                 } else {
                     m_depgraph->clear();
                     m_makefile->invalidateTimeStamps();
+                    FastFileInfo::clearCache();
                     m_depgraph->build(m_pendingTargets.takeFirst());
                     QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
                 }
-- 
2.43.0


From 104ec8087d58c48845ebe16d1a796620ebf992be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 18/47] fix: accept comments and blanks behind inference rules

---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 0aa26a8..529cfd4 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -41,7 +41,7 @@ Parser::Parser()
 :   m_preprocessor(0)
 {
     m_rexDotDirective.setPattern(QLatin1String("^\\.(IGNORE|PRECIOUS|SILENT|SUFFIXES)\\s*:(.*)"));
-    m_rexInferenceRule.setPattern(QLatin1String("^(\\{.*\\})?(\\.\\w+)(\\{.*\\})?(\\.\\w+)(:{1,2})"));
+    m_rexInferenceRule.setPattern(QLatin1String("^(\\{.*\\})?(\\.\\w+)(\\{.*\\})?(\\.\\w+)(:{1,2})\\s*(#.*)?"));
     m_rexSingleWhiteSpace.setPattern(QLatin1String("\\s"));
 }
 
-- 
2.43.0


From 52a5ab63b072c8dd59d523e024d8dd397807c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 19/47] fix: compare the directories of inference rules like
 file names

---
 src/jomlib/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 529cfd4..6cf0e8c 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -715,7 +715,8 @@ QVector<InferenceRule*> Parser::findRulesByTargetName(const QString& targetFileP
             removeDirSeparatorAtEnd(directory);
             if (directory.isEmpty())
                 directory = QLatin1Char('.');
-            if (directory != rule->m_toSearchPath)
+            if (QDir::toNativeSeparators(directory).compare(
+                    QDir::toNativeSeparators(rule->m_toSearchPath), Qt::CaseInsensitive) != 0)
                 continue;
 
             rules.append(rule);
-- 
2.43.0


From 0609ea26d34308672e3cf5ab6bbb3d546fb8bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:08 +0000
Subject: [PATCH 20/47] fix: visit each target only once when marking targets
 as unbuildable

---
 src/jomlib/dependencygraph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 07acdab..c3bb8bb 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -95,6 +95,8 @@ bool DependencyGraph::isUnbuildable(DescriptionBlock *target) const
 void DependencyGraph::markParentsRecursivlyUnbuildable(Node *node)
 {
     foreach (Node *parent, node->parents) {
+        if (parent->state == Node::Unbuildable)
+            continue;
         parent->state = Node::Unbuildable;
         markParentsRecursivlyUnbuildable(parent);
     }
-- 
2.43.0


From 28215005a1b9c6c5f516cde02fa2e90852debb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:24 +0000
Subject: [PATCH 21/47] fix: file name macros with modifiers, substitutions and
 empty values

---
 src/jomlib/makefile.cpp | 157 ++++++++++++++++++++--------------------
 src/jomlib/makefile.h   |   1 +
 2 files changed, 81 insertions(+), 77 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index c1d2844..4076aa5 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -177,19 +177,27 @@ inline void quoteStringIfNeeded(QString& str)
     }
 }
 
-static QString joinFileNameMacroValues(const QStringList &macroValues)
+static QString joinFileNameMacroValues(const QStringList &macroValues, bool quote)
 {
     QString result;
     for (int i = 0; i < macroValues.count(); ++i) {
         if (i > 0)
             result += QLatin1Char(' ');
         QString value = macroValues.at(i);
-        quoteStringIfNeeded(value);
+        if (quote)
+            quoteStringIfNeeded(value);
         result += value;
     }
     return result;
 }
 
+static void removeFileExtension(QString &filePath)
+{
+    const int k = filePath.lastIndexOf(QLatin1Char('.'));
+    if (k > filePath.lastIndexOf(QLatin1Char('\\')))
+        filePath.truncate(k);
+}
+
 /**
  * Expands the filename macros in a given string.
  *
@@ -222,87 +230,74 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
         }
 
         int replacementLength = 0;
-        char ch = str.at(idx).toLatin1();
-        if (ch == '(') {
-            int substitutionIdx = -1;
-            bool substitutionStateKnown = false;
+        if (idx < str.count() && str.at(idx) == QLatin1Char('(')) {
             QStringList macroValues = getFileNameMacroValues(str.midRef(idx+1), replacementLength,
                                                              depIdx, dependentsForbidden);
-            if (macroValues.isEmpty()) {
-                str.remove(idx - 1, replacementLength + 3);
-            } else {
-                ch = str.at(idx + replacementLength + 1).toLatin1();
-                switch (ch)
-                {
-                case 'D':
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        QString &macroValue = macroValues[i];
-                        int k = macroValue.lastIndexOf(QLatin1Char('\\'));
-                        if (k == -1)
-                            macroValue = QLatin1String(".");
-                        else
-                            macroValue = macroValue.left(k);
-                    }
-                    break;
-                case 'B':
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        QString &macroValue = macroValues[i];
-                        macroValue = QFileInfo(macroValue).baseName();
-                    }
-                    break;
-                case 'F':
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        QString &macroValue = macroValues[i];
-                        macroValue = QFileInfo(macroValue).fileName();
-                    }
-                    break;
-                case 'R':
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        QString &macroValue = macroValues[i];
-                        int k = macroValue.lastIndexOf(QLatin1Char('.'));
-                        if (k > -1)
-                            macroValue = macroValue.left(k);
-                    }
-                    break;
-                case ':':
-                    substitutionStateKnown = true;
-                    substitutionIdx = idx + replacementLength + 2;
-                    break;
-                case ')':
-                    // No file name modifier given.
-                    substitutionStateKnown = true;
-                    break;
-                default:
-                    // TODO: yield error? ignore for now
-                    continue;
+            int macroInvokationEnd = idx + replacementLength + 1;
+            char ch = (macroInvokationEnd < str.count())
+                    ? str.at(macroInvokationEnd).toLatin1() : '\0';
+            switch (ch)
+            {
+            case 'D':
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    QString &macroValue = macroValues[i];
+                    int k = macroValue.lastIndexOf(QLatin1Char('\\'));
+                    if (k == -1)
+                        macroValue = QLatin1String(".");
+                    else
+                        macroValue = macroValue.left(k);
                 }
-
-                // We've seen D, B, F or R and don't know yet whether we should substitute something.
-                if (!substitutionStateKnown && str.at(idx + replacementLength + 2) == QLatin1Char(':'))
-                    substitutionIdx = idx + replacementLength + 3;
-
-                if (substitutionIdx > 0) {
-                    int macroInvokationEnd;
-                    const MacroTable::Substitution substitution =
-                            MacroTable::parseSubstitutionStatement(str, substitutionIdx, macroInvokationEnd);
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        MacroTable::applySubstitution(substitution, macroValues[i]);
-                    }
-                    replacementLength = macroInvokationEnd - idx - 2;  // because we're later adding 4
+                break;
+            case 'B':
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    QString &macroValue = macroValues[i];
+                    macroValue = QFileInfo(macroValue).completeBaseName();
+                }
+                break;
+            case 'F':
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    QString &macroValue = macroValues[i];
+                    macroValue = QFileInfo(macroValue).fileName();
                 }
+                break;
+            case 'R':
+                for (int i = 0; i < macroValues.count(); ++i)
+                    removeFileExtension(macroValues[i]);
+                break;
+            case ':':
+            case ')':
+                // No file name modifier given.
+                --macroInvokationEnd;
+                break;
+            default:
+                // TODO: yield error? ignore for now
+                continue;
+            }
 
-                const QString macroValue = joinFileNameMacroValues(macroValues);
-                str.replace(idx - 1, replacementLength + 4, macroValue);
+            // We've seen the modifier, if any, and don't know yet whether we should substitute something.
+            ++macroInvokationEnd;
+            ch = (macroInvokationEnd < str.count())
+                    ? str.at(macroInvokationEnd).toLatin1() : '\0';
+            if (ch == ':') {
+                const MacroTable::Substitution substitution =
+                        MacroTable::parseSubstitutionStatement(str, macroInvokationEnd + 1, macroInvokationEnd);
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    MacroTable::applySubstitution(substitution, macroValues[i]);
+                }
+            } else if (ch != ')') {
+                continue;
             }
+
+            replacementLength = macroInvokationEnd - idx + 1;
+            const QString macroValue = joinFileNameMacroValues(macroValues, !dependentsForbidden);
+            str.replace(idx - 1, replacementLength + 1, macroValue);
+            idx += macroValue.count() - 1;
         } else {
             QStringList macroValues = getFileNameMacroValues(str.midRef(idx), replacementLength,
                                                              depIdx, dependentsForbidden);
-            if (macroValues.isEmpty()) {
-                str.remove(idx - 1, replacementLength + 1);
-            } else {
-                const QString macroValue = joinFileNameMacroValues(macroValues);
-                str.replace(idx - 1, replacementLength + 1, macroValue);
-            }
+            const QString macroValue = joinFileNameMacroValues(macroValues, !dependentsForbidden);
+            str.replace(idx - 1, replacementLength + 1, macroValue);
+            idx += macroValue.count() - 1;
         }
     }
 }
@@ -319,7 +314,15 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
             dependentCandidates << m_dependents.at(depIdx);
     }
 
+    if (str.isEmpty())
+        return results;
+
     switch (str.at(0).toLatin1()) {
+        case '<':
+            replacementLength = 1;
+            if (!dependentsForbidden)
+                results = m_inferredDependents;
+            break;
         case '@':
             replacementLength = 1;
             results += targetName();
@@ -335,9 +338,7 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
                 } else {
                     replacementLength = 1;
                     QString tgt = targetName();
-                    int idx = tgt.lastIndexOf(QLatin1Char('.'));
-                    if (idx > -1)
-                        tgt.resize(idx);
+                    removeFileExtension(tgt);
                     results += tgt;
                 }
             }
@@ -638,6 +639,7 @@ void Makefile::applyInferenceRule(DescriptionBlock* target, const InferenceRule*
     QString inferredDependent = rule->inferredDependent(target->targetName());
     if (!target->m_dependents.contains(inferredDependent))
         target->m_dependents.append(inferredDependent);
+    target->m_inferredDependents = QStringList(inferredDependent);
     target->m_commands = rule->m_commands;
 
     //qDebug() << "----> inferredDependent:" << inferredDependent;
@@ -669,6 +671,7 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
         QString inferredDependent = rule->inferredDependent(target->targetName());
         if (!executingTarget->m_dependents.contains(inferredDependent))
             executingTarget->m_dependents.append(inferredDependent);
+        executingTarget->m_inferredDependents.append(inferredDependent);
 
         inferredDependents.append(inferredDependent);
         inferredDependents.append(QLatin1Char(' '));
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 1aca1ae..b93f1db 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -100,6 +100,7 @@ public:
     Makefile* makefile() const { return m_pMakefile; }
 
     QStringList m_dependents;
+    QStringList m_inferredDependents;
     FileTime m_timeStamp;
     FileTime m_dryRunTimeStamp;     // set if the target has been built by a dry run
     bool m_bFileExists;
-- 
2.43.0


From 788399488a57d312a91db9ee2e4b0216b9d1d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:31 +0000
Subject: [PATCH 22/47] fix: expand wildcards relative to the current directory
 and to files only

---
 src/jomlib/parser.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 6cf0e8c..6957bdb 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -362,6 +362,9 @@ static bool containsWildcard(const QString &str)
 static QStringList expandWildcards(const QString &dirPath, const QStringList &lst)
 {
     QStringList result;
+    QString dirPathWithSlash = dirPath;
+    if (!dirPathWithSlash.endsWith(QLatin1Char('/')))
+        dirPathWithSlash += QLatin1Char('/');
     foreach (QString str, lst) {
         if (containsWildcard(str)) {
             QString path = dirPath;
@@ -371,18 +374,18 @@ static QStringList expandWildcards(const QString &dirPath, const QStringList &ls
                 if (QFileInfo(str).isRelative())
                     path += QLatin1Char('/') + str.left(idx);
                 else
-                    path = str.left(idx);
+                    path = str.left(idx + 1);
                 str.remove(0, idx + 1);
             }
 
-            QDirIterator dit(path, QStringList(str));
+            // [ isn't special in file names on Windows
+            str.replace(QLatin1Char('['), QLatin1String("[[]"));
+
+            QDirIterator dit(path, QStringList(str), QDir::Files);
             while (dit.hasNext()) {
                 QString filePath = dit.next();
-                if (filePath.startsWith(dirPath, Qt::CaseInsensitive)) {
-                    filePath.remove(0, dirPath.length());
-                    if (filePath.startsWith(QLatin1Char('/')))
-                       filePath.remove(0, 1);
-                }
+                if (filePath.startsWith(dirPathWithSlash, Qt::CaseInsensitive))
+                    filePath.remove(0, dirPathWithSlash.length());
                 result.append(QDir::toNativeSeparators(filePath));
             }
         } else {
@@ -423,7 +426,7 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
 
     const QStringList targets = splitTargetNames(target);
     QStringList dependents = splitTargetNames(value);
-    dependents = expandWildcards(m_makefile->dirPath(), dependents);
+    dependents = expandWildcards(QDir::currentPath(), dependents);
 
     // handle the special .SYNC dependents
     {
-- 
2.43.0


From 675231d9644788bd65cbf788b61e04940aaa598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:39 +0000
Subject: [PATCH 23/47] fix: do not build anything after dumping the dependency
 graph

---
 src/app/main.cpp              | 1 -
 src/jomlib/targetexecutor.cpp | 4 ++--
 src/jomlib/targetexecutor.h   | 2 +-
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index c310836..e883ff5 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -215,7 +215,6 @@ int main(int argc, char* argv[])
         g_pTargetExecutor = &executor;
         executor.apply(mkfile.data(), mf.activeTargets());
 
-        QMetaObject::invokeMethod(&executor, "startProcesses", Qt::QueuedConnection);
         result = app.exec();
         g_pTargetExecutor = 0;
         if (options->printWorkingDir) {
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 562d4ce..0bec860 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -87,7 +87,7 @@ void TargetExecutor::apply(Makefile* mkfile, const QStringList& targets)
     DescriptionBlock* descblock;
     if (targets.isEmpty()) {
         if (mkfile->targets().isEmpty()) {
-            finishBuild(0);
+            QMetaObject::invokeMethod(this, "finishBuild", Qt::QueuedConnection, Q_ARG(int, 0));
             return;
         }
         descblock = mkfile->firstTarget();
@@ -109,7 +109,7 @@ void TargetExecutor::apply(Makefile* mkfile, const QStringList& targets)
             m_depgraph->dotDump();
         else
             m_depgraph->dump();
-        finishBuild(0);
+        QMetaObject::invokeMethod(this, "finishBuild", Qt::QueuedConnection, Q_ARG(int, 0));
         return;
     }
 
diff --git a/src/jomlib/targetexecutor.h b/src/jomlib/targetexecutor.h
index 3379251..fe0a9d9 100644
--- a/src/jomlib/targetexecutor.h
+++ b/src/jomlib/targetexecutor.h
@@ -57,12 +57,12 @@ private slots:
     void startProcesses();
     void buildNextTarget();
     void onChildFinished(CommandExecutor*, bool commandFailed);
+    void finishBuild(int exitCode);
 
 private:
     int numberOfRunningProcesses() const;
     void waitForProcesses();
     void waitForJobClient();
-    void finishBuild(int exitCode);
     void findNextTarget();
 
 private:
-- 
2.43.0


From 15b5a3f03bbcda6dffd2a8b6fbd6a2c53001ae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:54 +0000
Subject: [PATCH 24/47] fix: macros that refer to themselves by substitution or
 single character

---
 src/jomlib/macrotable.cpp | 78 ++++++++++++++++++++++-----------------
 src/jomlib/macrotable.h   |  1 +
 2 files changed, 46 insertions(+), 33 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index ff4d3f6..1dce46c 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -156,39 +156,48 @@ void MacroTable::setEnvironmentVariable(const QString& name, const QString& valu
 }
 
 /**
- * String replace with lazy replacement evaluation.
- * getValue is only called if the search string is present.
+ * Replaces the invocations of the macro in its own new value by its previous value.
  */
-template <typename F>
-void replaceStringWithLazyValue(QString &str, const QString &searchString, F getValue)
+QString MacroTable::instantiateSelfReferences(const QString &name, const QString &newValue) const
 {
-    int idx = str.indexOf(searchString);
-    if (idx >= 0) {
-        const QString oldValue = getValue();
-        do {
-            str.replace(idx, searchString.length(), oldValue);
-            idx = str.indexOf(searchString, idx + oldValue.length());
-        } while (idx >= 0);
+    const QString plainInvokation = QLatin1Char('(') + name + QLatin1Char(')');
+    const QString substitution = QLatin1Char('(') + name + QLatin1Char(':');
+    QString result = newValue;
+    int idx = 0;
+    while ((idx = result.indexOf(QLatin1Char('$'), idx)) >= 0) {
+        const QStringRef rest = result.midRef(idx + 1);
+        if (rest.startsWith(QLatin1Char('$'))) {
+            idx += 2;
+            continue;
+        }
+        int length = 1;
+        QString replacement = QLatin1String("$");
+        if (rest.startsWith(plainInvokation)) {
+            length += plainInvokation.length();
+            replacement = macroValue(name);
+        } else if (name.length() == 1 && rest.startsWith(name)) {
+            length += name.length();
+            replacement = macroValue(name);
+        } else if (rest.startsWith(substitution)) {
+            try {
+                int end;
+                const Substitution s = parseSubstitutionStatement(
+                            result, idx + 1 + substitution.length(), end);
+                QString value = expandMacros(macroValue(name));
+                applySubstitution(s, value);
+                value.replace(QLatin1Char('$'), QLatin1String("$$"));
+                length = end - idx + 1;
+                replacement = value;
+            } catch (const Exception &) {
+                // The macro cannot be invoked. This is an error if somebody tries to.
+            }
+        }
+        result.replace(idx, length, replacement);
+        idx += replacement.length();
     }
+    return result;
 }
 
-class MacroValueOp
-{
-public:
-    MacroValueOp(MacroTable *mt, const QString &str)
-        : mt(mt), str(str)
-    {}
-
-    QString operator()()
-    {
-        return mt->macroValue(str);
-    }
-
-private:
-    const MacroTable *const mt;
-    const QString &str;
-};
-
 MacroTable::MacroData* MacroTable::internalSetMacroValue(const QString &name, const QString &value,
                                                          bool ignoreReadOnly)
 {
@@ -197,9 +206,7 @@ MacroTable::MacroData* MacroTable::internalSetMacroValue(const QString &name, co
         return 0;
 
     MacroData* result = 0;
-    const QString instantiatedName = QLatin1Literal("$(") + expandedName + QLatin1Literal(")");
-    QString newValue = value;
-    replaceStringWithLazyValue(newValue, instantiatedName, MacroValueOp(this, expandedName));
+    const QString newValue = instantiateSelfReferences(expandedName, value);
 
     result = &m_macros[expandedName];
     if (ignoreReadOnly || !result->isReadOnly)
@@ -413,8 +420,13 @@ MacroTable::Substitution MacroTable::parseSubstitutionStatement(const QString &s
     Substitution result;
     result.before = str.mid(substitutionStartIdx, equalsSignIdx - substitutionStartIdx);
     result.after = str.mid(equalsSignIdx + 1, macroInvokationEndIdx - equalsSignIdx - 1);
-    for (int i=quotePositions.count() - 1; i >= 0; --i)
-        result.after.remove(quotePositions.at(i) - equalsSignIdx - 1, 1);
+    for (int i=quotePositions.count() - 1; i >= 0; --i) {
+        const int quotePosition = quotePositions.at(i);
+        if (quotePosition > equalsSignIdx)
+            result.after.remove(quotePosition - equalsSignIdx - 1, 1);
+        else
+            result.before.remove(quotePosition - substitutionStartIdx, 1);
+    }
     return result;
 }
 
diff --git a/src/jomlib/macrotable.h b/src/jomlib/macrotable.h
index 7a93043..358fbd1 100644
--- a/src/jomlib/macrotable.h
+++ b/src/jomlib/macrotable.h
@@ -89,6 +89,7 @@ private:
     void setMacroValueImpl(const QString &name, const QString &value, MacroSource source);
     void defineCommandLineMacroValueImpl(const QString &name, const QString &value,
                                          MacroSource source);
+    QString instantiateSelfReferences(const QString &name, const QString &newValue) const;
     MacroData* internalSetMacroValue(const QString &name, const QString &value,
                                      bool ignoreReadOnly = false);
     void setEnvironmentVariable(const QString& name, const QString& value);
-- 
2.43.0


From eee3e551b3b390e5f8889cd3a4ebc5c9e3b81a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:09 +0000
Subject: [PATCH 25/47] fix: expand the macros in preprocessing directives
 exactly once and only in active branches

---
 src/jomlib/preprocessor.cpp | 83 ++++++++++++++++++++++---------------
 src/jomlib/preprocessor.h   | 10 ++++-
 2 files changed, 58 insertions(+), 35 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index b0e001c..bba8087 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -248,17 +248,25 @@ bool Preprocessor::parseMacro(const QString& line)
 bool Preprocessor::parsePreprocessingDirective(const QString& line)
 {
     QString directive, value;
-    QString expandedLine = m_macroTable->expandMacros(line);
-    if (!isPreprocessingDirective(expandedLine, directive, value))
+    if (line.startsWith(QLatin1Char('$'))) {
+        // The directive itself might be the value of a macro.
+        QString expandedLine = line;
+        removeInlineComments(expandedLine);
+        expandedLine = m_macroTable->expandMacros(expandedLine);
+        expandedLine.replace(QLatin1Char('$'), QLatin1String("$$"));
+        if (!isPreprocessingDirective(expandedLine, directive, value))
+            return false;
+    } else if (!isPreprocessingDirective(line, directive, value)) {
         return false;
+    }
 
     if (directive == QLatin1String("CMDSWITCHES")) {
     } else if (directive == QLatin1String("ERROR")) {
-        error(QLatin1Literal("ERROR: ") + value);
+        error(QLatin1Literal("ERROR: ") + m_macroTable->expandMacros(value));
     } else if (directive == QLatin1String("MESSAGE")) {
-        puts(qPrintable(value));
+        puts(qPrintable(m_macroTable->expandMacros(value)));
     } else if (directive == QLatin1String("INCLUDE")) {
-        internalOpenFile(findIncludeFile(value));
+        internalOpenFile(findIncludeFile(m_macroTable->expandMacros(value)));
     } else if (directive == QLatin1String("IF")) {
         bool followElseBranch = evaluateExpression(value) == 0;
         enterConditional(followElseBranch);
@@ -266,54 +274,47 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
             skipUntilNextMatchingConditional();
         }
     } else if (directive == QLatin1String("IFDEF")) {
-        bool followElseBranch = !m_macroTable->isMacroDefined(value);
+        bool followElseBranch = !isMacroDefined(value);
         enterConditional(followElseBranch);
         if (followElseBranch) {
             skipUntilNextMatchingConditional();
         }
     } else if (directive == QLatin1String("IFNDEF")) {
-        bool followElseBranch = m_macroTable->isMacroDefined(value);
+        bool followElseBranch = isMacroDefined(value);
         enterConditional(followElseBranch);
         if (followElseBranch) {
             skipUntilNextMatchingConditional();
         }
     } else if (directive == QLatin1String("ELSE")) {
-        if (conditionalDepth() == 0)
-            error(QLatin1String("unexpected ELSE"));
-        if (!m_conditionalStack.top()) {
+        enterElseBranch(true);
+        if (!m_conditionalStack.top().followElseBranch) {
             skipUntilNextMatchingConditional();
         }
     } else if (directive == QLatin1String("ELSEIF")) {
-        if (conditionalDepth() == 0)
-            error(QLatin1String("unexpected ELSE"));
-        if (!m_conditionalStack.top() || evaluateExpression(value) == 0) {
+        enterElseBranch(false);
+        if (!m_conditionalStack.top().followElseBranch || evaluateExpression(value) == 0) {
             skipUntilNextMatchingConditional();
         } else {
-            m_conditionalStack.pop();
-            m_conditionalStack.push(false);
+            m_conditionalStack.top().followElseBranch = false;
         }
     } else if (directive == QLatin1String("ELSEIFDEF")) {
-        if (conditionalDepth() == 0)
-            error(QLatin1String("unexpected ELSE"));
-        if (!m_conditionalStack.top() || !m_macroTable->isMacroDefined(value)) {
+        enterElseBranch(false);
+        if (!m_conditionalStack.top().followElseBranch || !isMacroDefined(value)) {
             skipUntilNextMatchingConditional();
         } else {
-            m_conditionalStack.pop();
-            m_conditionalStack.push(false);
+            m_conditionalStack.top().followElseBranch = false;
         }
     } else if (directive == QLatin1String("ELSEIFNDEF")) {
-        if (conditionalDepth() == 0)
-            error(QLatin1String("unexpected ELSE"));
-        if (!m_conditionalStack.top() || m_macroTable->isMacroDefined(value)) {
+        enterElseBranch(false);
+        if (!m_conditionalStack.top().followElseBranch || isMacroDefined(value)) {
             skipUntilNextMatchingConditional();
         } else {
-            m_conditionalStack.pop();
-            m_conditionalStack.push(false);
+            m_conditionalStack.top().followElseBranch = false;
         }
     } else if (directive == QLatin1String("ENDIF")) {
         exitConditional();
     } else if (directive == QLatin1String("UNDEF")) {
-        m_macroTable->undefineMacro(value);
+        m_macroTable->undefineMacro(m_macroTable->expandMacros(value));
     } else {
         error(QString(QStringLiteral("Unknown preprocessor directive !%1")).arg(directive));
     }
@@ -362,6 +363,10 @@ QString Preprocessor::findIncludeFile(const QString &filePathToInclude)
     return QString();
 }
 
+/**
+ * Splits the line into directive and value.
+ * The macros in the value are not expanded yet.
+ */
 bool Preprocessor::isPreprocessingDirective(const QString& line, QString& directive, QString& value)
 {
     if (line.isEmpty())
@@ -372,9 +377,8 @@ bool Preprocessor::isPreprocessingDirective(const QString& line, QString& direct
         return false;
 
     bool oldStyleIncludeDirectiveFound = false;
-    if (firstChar != QLatin1Char('!') && line.length() > 8) {
-        const char ch = line.at(7).toLatin1();
-        if (!isSpaceOrTab(QLatin1Char(ch)))
+    if (firstChar != QLatin1Char('!')) {
+        if (line.length() <= 8 || !isSpaceOrTab(line.at(7)))
             return false;
 
         if (line.left(7).toLower() == QLatin1String("include"))
@@ -405,7 +409,6 @@ bool Preprocessor::isPreprocessingDirective(const QString& line, QString& direct
         }
     }
 
-    value = m_macroTable->expandMacros(value);
     removeInlineComments(value);
     return result;
 }
@@ -426,8 +429,7 @@ void Preprocessor::skipUntilNextMatchingConditional()
         if (line.content.startsWith(QLatin1Char('!')))
             completePreprocessingDirectiveLine(line);
 
-        QString expandedLine = m_macroTable->expandMacros(line.content);
-        if (!isPreprocessingDirective(expandedLine, directive, value))
+        if (!isPreprocessingDirective(line.content, directive, value))
             continue;
 
         if (directive == QLatin1String("ENDIF"))
@@ -444,7 +446,7 @@ void Preprocessor::skipUntilNextMatchingConditional()
 
         if (depth == 0) {
             if (token == TOK_ELSE) {
-                m_linesPutBack.append(expandedLine);
+                m_linesPutBack.append(line.content);
                 return;  // found the next matching ELSE
             }
             if (token == TOK_ENDIF) {
@@ -463,7 +465,8 @@ void Preprocessor::skipUntilNextMatchingConditional()
 
 void Preprocessor::enterConditional(bool followElseBranch)
 {
-    m_conditionalStack.push(followElseBranch);
+    const Conditional conditional = { followElseBranch, false };
+    m_conditionalStack.push(conditional);
 }
 
 void Preprocessor::exitConditional()
@@ -473,6 +476,18 @@ void Preprocessor::exitConditional()
     m_conditionalStack.pop();
 }
 
+void Preprocessor::enterElseBranch(bool isLastBranch)
+{
+    if (conditionalDepth() == 0 || m_conditionalStack.top().elseFound)
+        error(QLatin1String("unexpected ELSE"));
+    m_conditionalStack.top().elseFound = isLastBranch;
+}
+
+bool Preprocessor::isMacroDefined(const QString& name)
+{
+    return m_macroTable->isMacroDefined(m_macroTable->expandMacros(name));
+}
+
 int Preprocessor::evaluateExpression(const QString& expr)
 {
     if (!m_expressionParser) {
diff --git a/src/jomlib/preprocessor.h b/src/jomlib/preprocessor.h
index b268c72..679b1c1 100644
--- a/src/jomlib/preprocessor.h
+++ b/src/jomlib/preprocessor.h
@@ -70,10 +70,12 @@ private:
     bool parsePreprocessingDirective(const QString& line);
     QString findIncludeFile(const QString &filePathToInclude);
     bool isPreprocessingDirective(const QString& line, QString& directive, QString& value);
+    bool isMacroDefined(const QString& name);
     void skipUntilNextMatchingConditional();
     void error(const QString& msg);
     void enterConditional(bool followElseBranch);
     void exitConditional();
+    void enterElseBranch(bool isLastBranch);
     int conditionalDepth() { return m_conditionalStack.count(); }
 
 private:
@@ -98,10 +100,16 @@ private:
         }
     };
 
+    struct Conditional
+    {
+        bool followElseBranch;  // no branch has been processed so far
+        bool elseFound;
+    };
+
     QStack<TextFile>    m_fileStack;
     MacroTable*         m_macroTable;
     QRegExp             m_rexPreprocessingDirective;
-    QStack<bool>        m_conditionalStack;
+    QStack<Conditional> m_conditionalStack;
     PPExprParser*       m_expressionParser;
     QStringList         m_linesPutBack;
     bool                m_bInlineFileMode;
-- 
2.43.0


From 38a935877394026e47231ab1b9f83d7167cf2527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 26/47] fix: comments with macros and escaped hash characters
 outside of preprocessing directives

---
 src/jomlib/parser.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 6957bdb..fd87384 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -83,16 +83,16 @@ void Parser::apply(Preprocessor* pp,
     try {
         readLine();
         while (!m_line.isNull()) {
-            QString expandedLine = m_preprocessor->macroTable()->expandMacros(m_line);
+            QString expandedLine = m_line;
+            Preprocessor::removeInlineComments(expandedLine);
+            expandedLine = m_preprocessor->macroTable()->expandMacros(expandedLine);
             if (isEmptyLine(expandedLine)) {
                 readLine();
             } else if (isDotDirective(expandedLine)) {
                 m_line = expandedLine;
-                Preprocessor::removeInlineComments(m_line);
                 parseDotDirective();
             } else if (isInferenceRule(expandedLine)) {
                 m_line = expandedLine;
-                Preprocessor::removeInlineComments(m_line);
                 parseInferenceRule();
             } else if (isDescriptionBlock(dbSeparatorPos, dbSeparatorLength, dbCommandSeparatorPos)) {
                 parseDescriptionBlock(dbSeparatorPos, dbSeparatorLength, dbCommandSeparatorPos);
@@ -208,18 +208,21 @@ static int removeCommentsAndFindCommandSeparator(QString& line)
         cmdSepIdx = line.indexOf(QLatin1Char(';'), cmdSepIdx + 1);
     } while (cmdSepIdx >= 0 && quotedVector[cmdSepIdx]);
 
-    if (commentIdx == cmdSepIdx)  // equality means, they are both -1
-        return -1;
-
-    if ((0 <= commentIdx && commentIdx < cmdSepIdx) || cmdSepIdx == -1) {
+    if (0 <= commentIdx && (commentIdx < cmdSepIdx || cmdSepIdx == -1)) {
         // The # indicates a comment.
         line.truncate(commentIdx);
-        for (int i=toRemove.count() - 1; i >= 0; i--)
-            line.remove(toRemove.at(i), 1);
         cmdSepIdx = -1;
     } else {
         // The # is inside the command and not a comment.
     }
+    for (int i=toRemove.count() - 1; i >= 0; i--) {
+        if (cmdSepIdx >= 0) {
+            if (toRemove.at(i) > cmdSepIdx)
+                continue;   // leave the command alone
+            --cmdSepIdx;
+        }
+        line.remove(toRemove.at(i), 1);
+    }
     return cmdSepIdx;
 }
 
-- 
2.43.0


From 49954d3a4f7dd792f1b79ca5ed7b8fd64f7d827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:21 +0000
Subject: [PATCH 27/47] fix: remainder by zero and overflows in preprocessor
 expressions

---
 src/jomlib/ppexpr.g         | 26 +++++++++++++++++---------
 src/jomlib/ppexprparser.cpp | 26 +++++++++++++++++---------
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/jomlib/ppexpr.g b/src/jomlib/ppexpr.g
index f826008..739f42c 100644
--- a/src/jomlib/ppexpr.g
+++ b/src/jomlib/ppexpr.g
@@ -330,14 +330,14 @@ term3       ::= term4;
 term3       ::= term3 SHIFT_LEFT term4;
 /.
     case $rule_number: // $rule
-        sym(1).num <<= sym(3).num;
+        sym(1).num = static_cast<int>(static_cast<uint>(sym(1).num) << (sym(3).num & 31));
         break;
 ./
 
 term3       ::= term3 SHIFT_RIGHT term4;
 /.
     case $rule_number: // $rule
-        sym(1).num >>= sym(3).num;
+        sym(1).num >>= (sym(3).num & 31);
         break;
 ./
 
@@ -345,14 +345,14 @@ term4       ::= term5;
 term4       ::= term4 PLUS term5;
 /.
     case $rule_number: // $rule
-        sym(1).num += sym(3).num;
+        sym(1).num = static_cast<int>(static_cast<uint>(sym(1).num) + static_cast<uint>(sym(3).num));
         break;
 ./
 
 term4       ::= term4 MINUS term5;
 /.
     case $rule_number: // $rule
-        sym(1).num -= sym(3).num;
+        sym(1).num = static_cast<int>(static_cast<uint>(sym(1).num) - static_cast<uint>(sym(3).num));
         break;
 ./
 
@@ -360,7 +360,7 @@ term5       ::= term6;
 term5       ::= term5 MULT term6;
 /.
     case $rule_number: // $rule
-        sym(1).num *= sym(3).num;
+        sym(1).num = static_cast<int>(static_cast<uint>(sym(1).num) * static_cast<uint>(sym(3).num));
         break;
 ./
 
@@ -373,23 +373,31 @@ term5       ::= term5 DIV term6;
             yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
             return false;
         }
-        sym(1).num /= rhs;
+        // Avoid the overflow of INT_MIN / -1.
+        sym(1).num = (rhs == -1) ? static_cast<int>(0u - static_cast<uint>(sym(1).num)) : sym(1).num / rhs;
         break;
     }
 ./
 
 term5       ::= term5 MOD term6;
 /.
-    case $rule_number: // $rule
-        sym(1).num %= sym(3).num;
+    case $rule_number: { // $rule
+        const int rhs = sym(3).num;
+        if (rhs == 0) {
+            m_errorMessage = "division by zero";
+            yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
+            return false;
+        }
+        sym(1).num = (rhs == -1) ? 0 : sym(1).num % rhs;
         break;
+    }
 ./
 
 term6 ::= primary;
 term6 ::= MINUS primary;
 /.
     case $rule_number: // $rule
-        sym(1).num = -sym(2).num;
+        sym(1).num = static_cast<int>(0u - static_cast<uint>(sym(2).num));
         break;
 ./
 
diff --git a/src/jomlib/ppexprparser.cpp b/src/jomlib/ppexprparser.cpp
index 7af643b..e536bc0 100644
--- a/src/jomlib/ppexprparser.cpp
+++ b/src/jomlib/ppexprparser.cpp
@@ -185,23 +185,23 @@ bool PPExprParser::parse(const char* str)
         break;
 
     case 18: // term3
-        sym(1).num <<= sym(3).num;
+        sym(1).num = static_cast<int>(static_cast<uint>(sym(1).num) << (sym(3).num & 31));
         break;
 
     case 19: // term3
-        sym(1).num >>= sym(3).num;
+        sym(1).num >>= (sym(3).num & 31);
         break;
 
     case 21: // term4
-        sym(1).num += sym(3).num;
+        sym(1).num = static_cast<int>(static_cast<uint>(sym(1).num) + static_cast<uint>(sym(3).num));
         break;
 
     case 22: // term4
-        sym(1).num -= sym(3).num;
+        sym(1).num = static_cast<int>(static_cast<uint>(sym(1).num) - static_cast<uint>(sym(3).num));
         break;
 
     case 24: // term5
-        sym(1).num *= sym(3).num;
+        sym(1).num = static_cast<int>(static_cast<uint>(sym(1).num) * static_cast<uint>(sym(3).num));
         break;
 
     case 25: { // term5
@@ -211,16 +211,24 @@ bool PPExprParser::parse(const char* str)
             yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
             return false;
         }
-        sym(1).num /= rhs;
+        // Avoid the overflow of INT_MIN / -1.
+        sym(1).num = (rhs == -1) ? static_cast<int>(0u - static_cast<uint>(sym(1).num)) : sym(1).num / rhs;
         break;
     }
 
-    case 26: // term5
-        sym(1).num %= sym(3).num;
+    case 26: { // term5
+        const int rhs = sym(3).num;
+        if (rhs == 0) {
+            m_errorMessage = "division by zero";
+            yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
+            return false;
+        }
+        sym(1).num = (rhs == -1) ? 0 : sym(1).num % rhs;
         break;
+    }
 
     case 28: // term6
-        sym(1).num = -sym(2).num;
+        sym(1).num = static_cast<int>(0u - static_cast<uint>(sym(2).num));
         break;
 
     case 29: // term6
-- 
2.43.0


From 3c8af70963e56ae23a1745a60a6c9245aab99108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:21 +0000
Subject: [PATCH 28/47] fix: several EXIST in one preprocessor expression,
 invalid characters and unterminated strings

---
 src/jomlib/ppexpr-lex.inc | 247 +++++++++++++++++++-------------------
 src/jomlib/ppexpr.l       |  40 +++---
 2 files changed, 143 insertions(+), 144 deletions(-)

diff --git a/src/jomlib/ppexpr-lex.inc b/src/jomlib/ppexpr-lex.inc
index 5ee300d..1e74d03 100644
--- a/src/jomlib/ppexpr-lex.inc
+++ b/src/jomlib/ppexpr-lex.inc
@@ -349,8 +349,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 41
-#define YY_END_OF_BUFFER 42
+#define YY_NUM_RULES 42
+#define YY_END_OF_BUFFER 43
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -358,17 +358,16 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[86] =
+static const flex_int16_t yy_accept[81] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       42,   41,    1,    3,   41,   22,   25,   20,    6,   23,
+       43,   41,    1,    3,   41,   22,   25,   20,    6,   23,
        24,   18,   16,   17,   19,    2,   10,   41,   11,   41,
-       41,   26,   41,    7,   21,   34,   36,   41,   29,   41,
-       31,   37,   40,   41,    1,    3,    8,    4,    2,   14,
-       12,    9,   13,   15,    0,    0,    0,    5,   34,   35,
-        0,   29,    0,   31,   37,   38,   39,    0,    0,    0,
-       30,   32,    0,    0,    0,    0,   28,   28,    0,    0,
-        0,   27,    0,   33,    0
+       41,   26,    7,   21,   33,   35,   29,   41,   31,   41,
+       36,   40,   39,    1,    3,    8,    4,    2,   14,   12,
+        9,   13,   15,    0,    0,    5,   33,   34,   29,    0,
+       31,    0,    0,    0,   32,   36,   37,   38,    0,    0,
+       30,    0,    0,    0,    0,    0,   28,    0,   27,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -378,15 +377,15 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    2,    5,    6,    1,    1,    7,    8,    1,    9,
        10,   11,   12,    1,   13,    1,   14,   15,   15,   15,
-       15,   15,   15,   15,   15,   15,   15,   16,    1,   17,
-       18,   19,    1,    1,    1,    1,    1,   20,   21,   22,
-        1,    1,   23,    1,    1,    1,    1,   24,    1,    1,
-        1,    1,   25,   26,    1,    1,    1,   27,    1,    1,
-       28,    1,   29,   30,    1,    1,   16,   16,    1,   31,
-
-       32,   33,    1,    1,   34,    1,   16,   16,    1,   35,
-        1,    1,    1,    1,   36,   37,    1,    1,    1,   38,
-        1,    1,    1,   39,    1,   40,    1,    1,    1,    1,
+       15,   15,   15,   15,   15,   15,   15,    1,    1,   16,
+       17,   18,    1,    1,    1,    1,    1,   19,   20,   21,
+        1,    1,   22,    1,    1,    1,    1,   23,    1,    1,
+        1,    1,   24,   25,    1,    1,    1,   26,    1,    1,
+       27,    1,   28,   29,    1,    1,    1,    1,    1,   30,
+
+       31,   32,    1,    1,   33,    1,    1,    1,    1,   34,
+        1,    1,    1,    1,   35,   36,    1,    1,    1,   37,
+        1,    1,    1,   38,    1,   39,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -403,98 +402,90 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1
     } ;
 
-static const YY_CHAR yy_meta[41] =
+static const YY_CHAR yy_meta[40] =
     {   0,
-        1,    1,    2,    1,    1,    3,    1,    1,    1,    4,
+        1,    1,    2,    1,    1,    3,    1,    1,    4,    5,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    5,    5,    5,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1
+        1,    1,    1,    1,    1,    1,    6,    6,    6,    1,
+        1,    1,    1,    1,    1,    1,    1,    1,    1
     } ;
 
-static const flex_int16_t yy_base[94] =
+static const flex_int16_t yy_base[90] =
     {   0,
-        0,    0,   38,   39,   34,   37,   38,   39,   48,   53,
-      128,  175,  124,  175,  122,  106,  175,  175,  115,  175,
-      175,  175,  175,  175,  175,  107,   40,  103,   41,   31,
-       37,  175,   41,   81,  175,    0,  113,    0,   45,    0,
-       49,    0,  175,   38,  115,  175,  175,  175,  100,  175,
-      175,  175,  175,  175,   63,   63,   64,  175,    0,  175,
-      104,   54,  103,   55,    0,  175,  175,   65,   66,   67,
-      175,  102,   69,   68,   69,   79,   92,  175,   87,  100,
-      100,  175,   52,   39,  175,  135,  140,  145,  150,  155,
-      160,  165,  169
-
+        0,    0,   37,   38,   40,   43,   44,   45,   45,   48,
+      155,  156,  152,  156,  150,  133,  156,  156,  141,  156,
+      156,  156,  156,  156,  156,  133,   39,  125,   40,   30,
+       33,  156,   99,  156,    0,  125,  126,    0,  118,   54,
+        0,  156,   38,  117,  156,  156,  156,   80,  156,  156,
+      156,  156,  156,   46,   46,  156,    0,  156,   92,   83,
+       89,   74,   84,   79,  156,    0,  156,  156,   49,   57,
+      156,   63,   52,   62,   61,   67,  156,   69,  156,  156,
+       99,  105,  111,  117,  123,  129,  135,  140,  146
     } ;
 
-static const flex_int16_t yy_def[94] =
+static const flex_int16_t yy_def[90] =
     {   0,
-       85,    1,   86,   86,   87,   87,   87,   87,   88,   88,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   89,   85,   90,   85,   91,
-       85,   92,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   89,   85,
-       90,   85,   91,   85,   92,   85,   85,   85,   85,   85,
-       85,   91,   85,   85,   85,   85,   85,   85,   85,   93,
-       85,   85,   93,   93,    0,   85,   85,   85,   85,   85,
-       85,   85,   85
-
+       80,    1,   81,   81,   82,   82,   82,   82,   83,   83,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   84,   80,   80,   85,   80,   86,
+       87,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   84,   80,   80,   85,
+       80,   86,   88,   89,   80,   87,   80,   80,   80,   80,
+       80,   88,   89,   80,   80,   80,   80,   80,   80,    0,
+       80,   80,   80,   80,   80,   80,   80,   80,   80
     } ;
 
-static const flex_int16_t yy_nxt[216] =
+static const flex_int16_t yy_nxt[196] =
     {   0,
        12,   13,   14,   15,   16,   17,   18,   19,   20,   21,
-       22,   23,   24,   25,   26,   12,   27,   28,   29,   30,
-       31,   12,   12,   12,   12,   12,   12,   32,   12,   12,
-       30,   33,   12,   12,   12,   12,   12,   12,   34,   35,
-       12,   12,   38,   37,   37,   38,   40,   40,   84,   39,
-       12,   55,   39,   41,   41,   12,   50,   51,   53,   54,
-       62,   84,   55,   56,   64,   66,   67,   57,   39,   62,
-       64,   39,   41,   41,   57,   12,   43,   44,   57,   62,
-       12,   43,   44,   64,   68,   69,   70,   73,   62,   64,
-       74,   75,   76,   77,   78,   68,   70,   70,   73,   79,
-
-       80,   75,   75,   76,   78,   78,   82,   81,   80,   84,
-       79,   72,   72,   71,   49,   81,   45,   82,   60,   58,
-       52,   49,   48,   47,   46,   45,   81,   85,   85,   85,
-       85,   85,   85,   85,   81,   36,   36,   36,   36,   36,
-       12,   12,   12,   12,   12,   42,   42,   42,   42,   42,
-       59,   85,   85,   59,   59,   61,   61,   61,   85,   61,
-       63,   85,   63,   63,   63,   65,   85,   65,   65,   83,
-       85,   83,   83,   83,   11,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85
+       22,   23,   24,   25,   26,   27,   28,   29,   30,   31,
+       12,   12,   12,   12,   12,   12,   32,   12,   12,   30,
+       31,   12,   12,   12,   12,   12,   12,   33,   34,   12,
+       12,   37,   36,   36,   37,   39,   39,   12,   38,   54,
+       12,   38,   40,   40,   49,   50,   52,   53,   55,   63,
+       54,   62,   64,   65,   67,   68,   69,   70,   62,   55,
+       74,   12,   42,   43,   12,   42,   43,   69,   70,   63,
+       75,   74,   64,   65,   76,   77,   78,   79,   62,   62,
+       61,   75,   71,   59,   48,   76,   77,   78,   79,   35,
+
+       35,   35,   35,   35,   35,   12,   12,   12,   12,   12,
+       12,   41,   41,   41,   41,   41,   41,   57,   44,   61,
+       57,   57,   57,   60,   60,   60,   60,   59,   60,   62,
+       58,   62,   62,   62,   62,   66,   56,   66,   66,   66,
+       72,   51,   72,   72,   72,   72,   73,   48,   47,   46,
+       73,   73,   45,   44,   80,   11,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80
+
     } ;
 
-static const flex_int16_t yy_chk[216] =
+static const flex_int16_t yy_chk[196] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        3,    4,    5,    3,    4,    6,    7,    8,   84,    5,
-        9,   30,    6,    7,    8,   10,   27,   27,   29,   29,
-       39,   83,   30,   31,   41,   44,   44,   33,    5,   62,
-       64,    6,    7,    8,   31,    9,    9,    9,   33,   39,
-       10,   10,   10,   41,   55,   56,   57,   68,   62,   64,
-       69,   70,   73,   74,   75,   55,   56,   57,   68,   76,
-
-       77,   69,   70,   73,   74,   75,   79,   77,   81,   80,
-       76,   72,   63,   61,   49,   81,   45,   79,   37,   34,
-       28,   26,   19,   16,   15,   13,   77,   11,    0,    0,
-        0,    0,    0,    0,   81,   86,   86,   86,   86,   86,
-       87,   87,   87,   87,   87,   88,   88,   88,   88,   88,
-       89,    0,    0,   89,   89,   90,   90,   90,    0,   90,
-       91,    0,   91,   91,   91,   92,    0,   92,   92,   93,
-        0,   93,   93,   93,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85
+        1,    1,    1,    1,    1,    1,    1,    1,    1,    3,
+        4,    5,    3,    4,    6,    7,    8,    9,    5,   30,
+       10,    6,    7,    8,   27,   27,   29,   29,   31,   40,
+       30,   73,   40,   40,   43,   43,   54,   55,   72,   31,
+       69,    9,    9,    9,   10,   10,   10,   54,   55,   62,
+       70,   69,   62,   62,   74,   75,   76,   78,   64,   63,
+       61,   70,   60,   59,   48,   74,   75,   76,   78,   81,
+
+       81,   81,   81,   81,   81,   82,   82,   82,   82,   82,
+       82,   83,   83,   83,   83,   83,   83,   84,   44,   39,
+       84,   84,   84,   85,   85,   85,   85,   37,   85,   86,
+       36,   86,   86,   86,   86,   87,   33,   87,   87,   87,
+       88,   28,   88,   88,   88,   88,   89,   26,   19,   16,
+       89,   89,   15,   13,   11,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80
+
     } ;
 
 static yy_state_type yy_last_accepting_state;
@@ -798,13 +789,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 86 )
+				if ( yy_current_state >= 81 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 85 );
+		while ( yy_current_state != 80 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -996,31 +987,13 @@ YY_RULE_SETUP
 
 case 33:
 YY_RULE_SETUP
-{
-    QByteArray fileName(yytext);
-    int idx = fileName.indexOf('(');
-    fileName.remove(0, idx + 1);
-    idx = fileName.lastIndexOf(')');
-    fileName.truncate(idx);
-    fileName = fileName.trimmed();
-    if (fileName.startsWith('\"'))
-        fileName.remove(0, 1);
-    if (fileName.endsWith('\"'))
-        fileName.chop(1);
-    yylval.num = QFile::exists(QString::fromLatin1(fileName.constData())) ? 1 : 0;
-    return T_NUMBER;
-}
-	YY_BREAK
-
-case 34:
-YY_RULE_SETUP
 yylval.str->append(yytext, static_cast<int>(yyleng));
 	YY_BREAK
-case 35:
+case 34:
 YY_RULE_SETUP
 yylval.str->append('\"');
 	YY_BREAK
-case 36:
+case 35:
 YY_RULE_SETUP
 {
                     BEGIN(INITIAL);
@@ -1028,18 +1001,22 @@ YY_RULE_SETUP
                 }
 	YY_BREAK
 
-case 37:
+case 36:
 YY_RULE_SETUP
 yylval.str->append(yytext, static_cast<int>(yyleng));
 	YY_BREAK
-case 38:
+case 37:
 YY_RULE_SETUP
 yylval.str->append('[');
 	YY_BREAK
-case 39:
+case 38:
 YY_RULE_SETUP
 yylval.str->append(']');
 	YY_BREAK
+case 39:
+YY_RULE_SETUP
+yylval.str->append('^');
+	YY_BREAK
 case 40:
 YY_RULE_SETUP
 {
@@ -1051,15 +1028,35 @@ YY_RULE_SETUP
                 }
 	YY_BREAK
 
+case YY_STATE_EOF(STATE_STRING):
+case YY_STATE_EOF(STATE_SHELLCOMMAND):
+{
+    BEGIN(INITIAL);
+    delete yylval.str;
+    return T_LINEFEED;
+}
+	YY_BREAK
+case YY_STATE_EOF(STATE_DEFINED):
+case YY_STATE_EOF(STATE_EXIST):
+{
+    BEGIN(INITIAL);
+    return T_LINEFEED;
+}
+	YY_BREAK
+/* Everything else is an error. Line feeds don't occur in the grammar. */
 case 41:
+/* rule 41 can match eol */
+YY_RULE_SETUP
+{
+    BEGIN(INITIAL);
+    return T_LINEFEED;
+}
+	YY_BREAK
+case 42:
 YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
-case YY_STATE_EOF(STATE_STRING):
-case YY_STATE_EOF(STATE_DEFINED):
-case YY_STATE_EOF(STATE_EXIST):
-case YY_STATE_EOF(STATE_SHELLCOMMAND):
 	yyterminate();
 
 	case YY_END_OF_BUFFER:
@@ -1356,7 +1353,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 86 )
+			if ( yy_current_state >= 81 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1384,11 +1381,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 86 )
+		if ( yy_current_state >= 81 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 85);
+	yy_is_jam = (yy_current_state == 80);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
diff --git a/src/jomlib/ppexpr.l b/src/jomlib/ppexpr.l
index 670c683..81ad74b 100644
--- a/src/jomlib/ppexpr.l
+++ b/src/jomlib/ppexpr.l
@@ -95,7 +95,7 @@ static int yywrap()
 (?i:EXIST)      BEGIN(STATE_EXIST);
 
 <STATE_DEFINED>{
-    [:blank:]+     /* eat whitespace */
+    [ \t]+     /* eat whitespace */
     "("[^\)]+")" {
         BEGIN(INITIAL);
         QByteArray macroName(yytext);
@@ -114,8 +114,8 @@ static int yywrap()
 }
 
 <STATE_EXIST>{
-    [:blank:]+     /* eat whitespace */
-    "(".+")" {
+    [ \t]+     /* eat whitespace */
+    "("(\"[^"\n]*\"|"("[^()"\n]*")"|[^()"\n])*")" {
         BEGIN(INITIAL);
         QByteArray fileName(yytext);
         int idx = fileName.indexOf('(');
@@ -132,21 +132,6 @@ static int yywrap()
     }
 }
 
-"EXIST"[:blank:]*"(".*")" {
-    QByteArray fileName(yytext);
-    int idx = fileName.indexOf('(');
-    fileName.remove(0, idx + 1);
-    idx = fileName.lastIndexOf(')');
-    fileName.truncate(idx);
-    fileName = fileName.trimmed();
-    if (fileName.startsWith('\"'))
-        fileName.remove(0, 1);
-    if (fileName.endsWith('\"'))
-        fileName.chop(1);
-    yylval.num = QFile::exists(QString::fromLatin1(fileName.constData())) ? 1 : 0;
-    return T_NUMBER;
-}
-
 <STATE_STRING>{
     [^\n\"]+    yylval.str->append(yytext, static_cast<int>(yyleng));
     \"\"        yylval.str->append('\"');
@@ -160,6 +145,7 @@ static int yywrap()
     [^\n\x5b\x5d\x5e]+    yylval.str->append(yytext, static_cast<int>(yyleng));
     "^["        yylval.str->append('[');
     "^]"        yylval.str->append(']');
+    "^"         yylval.str->append('^');
     "]"         {
                     BEGIN(INITIAL);
                     int exitCode = system(yylval.str->data());
@@ -169,5 +155,21 @@ static int yywrap()
                 }
 }
 
-%%
+<STATE_STRING,STATE_SHELLCOMMAND><<EOF>> {
+    BEGIN(INITIAL);
+    delete yylval.str;
+    return T_LINEFEED;
+}
 
+<STATE_DEFINED,STATE_EXIST><<EOF>> {
+    BEGIN(INITIAL);
+    return T_LINEFEED;
+}
+
+    /* Everything else is an error. Line feeds don't occur in the grammar. */
+<*>.|\n      {
+    BEGIN(INITIAL);
+    return T_LINEFEED;
+}
+
+%%
-- 
2.43.0


From 5bd388982e264b6704c50452e0051bcf88d09968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:38 +0000
Subject: [PATCH 29/47] fix: lookup of include files (macros in INCLUDE,
 directories, blanks) and detection of include cycles

---
 src/jomlib/preprocessor.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index bba8087..e937e36 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -73,11 +73,11 @@ bool Preprocessor::internalOpenFile(QString fileName)
         QString msg = QLatin1String("File %1 doesn't exist.");
         error(msg.arg(origFileName));
     }
-    fileName = fileInfo.absoluteFilePath();
+    fileName = QDir::cleanPath(fileInfo.absoluteFilePath());
 
     // detect include cycles
     foreach (const TextFile& tf, m_fileStack)
-        if (tf.reader->fileName() == fileName)
+        if (tf.reader->fileName().compare(fileName, Qt::CaseInsensitive) == 0)
             error(QLatin1String("cycle in include files: ") + fileInfo.fileName());
 
     MakefileLineReader* reader = new MakefileLineReader(fileName);
@@ -334,7 +334,7 @@ QString Preprocessor::findIncludeFile(const QString &filePathToInclude)
     removeDoubleQuotes(filePath);
 
     QFileInfo fi(filePath);
-    if (fi.exists())
+    if (fi.isFile())
         return fi.absoluteFilePath();
 
     // Search recursively through all directories of all parent makefiles.
@@ -342,18 +342,18 @@ QString Preprocessor::findIncludeFile(const QString &filePathToInclude)
          it != m_fileStack.constBegin();) {
         --it;
         fi.setFile(it->fileDirectory + QLatin1Char('/') + filePath);
-        if (fi.exists())
+        if (fi.isFile())
             return fi.absoluteFilePath();
     }
 
     if (angleBrackets) {
         // Search through all directories in the INCLUDE macro.
-        const QString includeVar = m_macroTable->macroValue(QLatin1String("INCLUDE"))
+        const QString includeVar = m_macroTable->expandMacros(QLatin1String("$(INCLUDE)"))
                 .replace(QLatin1Char('\t'), QLatin1Char(' '));
         const QStringList includeDirs = includeVar.split(QLatin1Char(';'), QString::SkipEmptyParts);
         foreach (const QString& includeDir, includeDirs) {
             fi.setFile(includeDir + QLatin1Char('/') + filePath);
-            if (fi.exists())
+            if (fi.isFile())
                 return fi.absoluteFilePath();
         }
     }
@@ -390,7 +390,7 @@ bool Preprocessor::isPreprocessingDirective(const QString& line, QString& direct
     bool result = true;
     if (oldStyleIncludeDirectiveFound) {
         directive = QLatin1String("INCLUDE");
-        value = line.mid(8);
+        value = line.mid(8).trimmed();
     } else {
         result = m_rexPreprocessingDirective.exactMatch(line);
         if (result) {
-- 
2.43.0


From f958a85753971f2214678ea2c610d1fd6b0edea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 30/47] fix: CR LF line ends that are split by the end of the
 line buffer

---
 src/jomlib/makefilelinereader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jomlib/makefilelinereader.cpp b/src/jomlib/makefilelinereader.cpp
index 9d3ec97..557d71c 100644
--- a/src/jomlib/makefilelinereader.cpp
+++ b/src/jomlib/makefilelinereader.cpp
@@ -134,6 +134,11 @@ MakefileLine MakefileLineReader::readLine_impl_local8bit()
             if (moreBytesRead <= 0)
                 break;
             bytesRead += moreBytesRead;
+            if (m_lineBuffer[bytesRead - 1] == '\n' && m_lineBuffer[bytesRead - 2] == '\r') {
+                // The line end has been split by the end of the buffer.
+                m_lineBuffer[bytesRead - 2] = '\n';
+                --bytesRead;
+            }
         }
 
     } while (m_lineBuffer[0] == '#');
-- 
2.43.0


From af8e36637e208c7cac6a4d88560c96d30f6cdb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 31/47] fix: number of jobs in MAKEFLAGS, empty arguments

---
 src/jomlib/options.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jomlib/options.cpp b/src/jomlib/options.cpp
index 01ce796..bc4c84f 100644
--- a/src/jomlib/options.cpp
+++ b/src/jomlib/options.cpp
@@ -91,8 +91,8 @@ bool Options::readCommandLineArguments(QStringList arguments, QString& makefile,
     const QStringList originalArguments = arguments;
     while (!arguments.isEmpty()) {
         QString arg = arguments.takeFirst();
-        if (arg.at(0) == QLatin1Char('-') ||
-            arg.at(0) == QLatin1Char('/'))
+        if (arg.startsWith(QLatin1Char('-')) ||
+            arg.startsWith(QLatin1Char('/')))
         {
             // handle option
             arg.remove(0, 1);
@@ -143,7 +143,8 @@ bool Options::expandCommandFiles(QStringList& arguments)
         if (it->startsWith(QLatin1Char('@'))) {
             QString fileName = *it;
             int frontRemoveCount = 1;
-            if (fileName.at(1) == QLatin1Char('"') && fileName.endsWith(QLatin1Char('"'))) {
+            if (fileName.length() > 2 && fileName.at(1) == QLatin1Char('"')
+                    && fileName.endsWith(QLatin1Char('"'))) {
                 frontRemoveCount = 2;
                 fileName.chop(1);
             }
@@ -304,8 +305,9 @@ bool Options::handleCommandLineOption(const QStringList &originalArguments, QStr
                         return false;
                     }
                     g_options.isMaxNumberOfJobsSet = true;
-                    if (makeflags.at(makeflags.count() - 1).toUpper() == QLatin1Char('J'))
-                        makeflags += nJobsStr;
+                    // The last number of jobs wins.
+                    makeflags.remove(QRegExp(QLatin1String("[Jj][0-9]*")));
+                    makeflags += QLatin1Char('J') + QString::number(g_options.maxNumberOfJobs);
                     break;
                 }
             case 'K':
-- 
2.43.0


From 69f3647af0f93647cb8db5eea5a40aa535b90c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 32/47] fix: quotes and quoted blanks in command files

---
 src/jomlib/helperfunctions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/helperfunctions.cpp b/src/jomlib/helperfunctions.cpp
index 356617f..2d0d074 100644
--- a/src/jomlib/helperfunctions.cpp
+++ b/src/jomlib/helperfunctions.cpp
@@ -39,7 +39,6 @@ QStringList splitCommandLine(QString commandLine)
     for (int i=0; i < commandLine.count(); ++i) {
         if (commandLine.at(i).isSpace() && !insideQuotes) {
             escapedQuote = false;
-            str = str.trimmed();
             if (!str.isEmpty()) {
                 arguments.append(str);
                 str.clear();
@@ -50,7 +49,8 @@ QStringList splitCommandLine(QString commandLine)
                     str.append(QLatin1Char('"'));
                     escapedQuote = false;
                 } else {
-                    escapedQuote = true;
+                    // Two quotes stand for a quote only within quotes.
+                    escapedQuote = insideQuotes;
                 }
                 insideQuotes = !insideQuotes;
             } else {
-- 
2.43.0


From 3c978c036c6fe67b99b481196913d65d70b33592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:06 +0000
Subject: [PATCH 33/47] fix: commands that cannot be started count as failed
 instead of ending jom

---
 src/jomlib/commandexecutor.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 6d61bf6..ea77c6e 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -99,8 +99,13 @@ void CommandExecutor::start(DescriptionBlock* target)
 void CommandExecutor::onProcessError(Process::ProcessError error)
 {
     //qDebug() << "onProcessError" << error;
-    if (!m_ignoreProcessErrors)
+    if (!m_ignoreProcessErrors) {
+        if (error == Process::FailedToStart) {
+            writeToStandardError("Can't start command: "
+                    + m_pTarget->m_commands.at(m_currentCommandIdx).m_commandLine.toLocal8Bit() + "\n");
+        }
         onProcessFinished(2, (error == Process::Crashed) ? Process::CrashExit : Process::NormalExit);
+    }
 }
 
 void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitStatus)
@@ -266,13 +271,10 @@ void CommandExecutor::executeCurrentCommandLine()
         if (shellCmd.isEmpty())
             shellCmd = QLatin1String("cmd.exe");
 
+        // If this fails, then onProcessError is called.
         commandLine = shellCmd + QLatin1Literal(" /C ") + commandLine;
         m_process.start(commandLine);
-        executionSucceeded = m_process.isRunning();
     }
-
-    if (!executionSucceeded)
-        qFatal("Can't start command: %s", qPrintable(commandLine));
 }
 
 void CommandExecutor::createTempFiles(Command &cmd)
-- 
2.43.0


From 5aee256d30fc114b19ab0b86d8d8a7f2bd17dac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:29 +0000
Subject: [PATCH 34/47] fix: report dependents that no rule can make, wait for
 running commands on errors

---
 src/jomlib/makefile.cpp       |  1 +
 src/jomlib/makefile.h         |  1 +
 src/jomlib/parser.cpp         |  1 +
 src/jomlib/targetexecutor.cpp | 48 +++++++++++++++++++++++++++--------
 src/jomlib/targetexecutor.h   |  2 ++
 5 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 4076aa5..4836594 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -116,6 +116,7 @@ DescriptionBlock::DescriptionBlock(Makefile* mkfile)
     m_bVisitedByCycleCheck(false),
     m_bNoCyclesRootedHere(false),
     m_bInferenceRulesPreselected(false),
+    m_bImplicit(false),
     m_batchTarget(0),
     m_canAddCommands(ACSUnknown),
     m_pMakefile(mkfile)
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index b93f1db..63e75d7 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -107,6 +107,7 @@ public:
     bool m_bVisitedByCycleCheck;
     bool m_bNoCyclesRootedHere;
     bool m_bInferenceRulesPreselected;
+    bool m_bImplicit;                       // not mentioned as a target in the makefile
     QVector<InferenceRule*> m_inferenceRules;
     DescriptionBlock *m_batchTarget;    // the target whose commands build this one too
 
diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index fd87384..189ed20 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -753,6 +753,7 @@ void Parser::preselectInferenceRules(DescriptionBlock *target)
             QVector<InferenceRule *> rules = findRulesByTargetName(dependentFileName);
             if (!rules.isEmpty()) {
                 dependent = createTarget(dependentFileName);
+                dependent->m_bImplicit = true;
                 dependent->m_inferenceRules = rules;
                 dependent->m_dependents = m_syncPoints.value(dependentName);
             }
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 0bec860..91dba35 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -148,9 +148,8 @@ void TargetExecutor::startProcesses()
             }
         }
     } catch (Exception &e) {
-        m_bAborted = true;
         fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
-        finishBuild(1);
+        abortBuild(2);
     }
 }
 
@@ -167,12 +166,21 @@ void TargetExecutor::buildNextTarget()
         m_nextTarget = 0;
         QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
     } catch (const Exception &e) {
-        m_bAborted = true;
         fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
-        finishBuild(1);
+        abortBuild(2);
     }
 }
 
+void TargetExecutor::abortBuild(int exitCode)
+{
+    m_bAborted = true;
+    m_depgraph->clear();
+    m_pendingTargets.clear();
+    waitForProcesses();
+    waitForJobClient();
+    finishBuild(exitCode);
+}
+
 void TargetExecutor::waitForProcesses()
 {
     foreach (CommandExecutor* process, m_processes)
@@ -205,12 +213,35 @@ void TargetExecutor::finishBuild(int exitCode)
     emit finished(exitCode);
 }
 
+/**
+ * Returns true if the target is just a dependent that could have been created by an
+ * inference rule, but there is neither a file nor the source file of a rule.
+ */
+bool TargetExecutor::isMissing(DescriptionBlock *target) const
+{
+    if (!target->m_bImplicit || target->m_batchTarget
+        || FastFileInfo(target->targetName()).exists())
+    {
+        return false;
+    }
+
+    foreach (const InferenceRule *rule, target->m_inferenceRules) {
+        if (target->makefile()->target(rule->inferredDependent(target->targetName())))
+            return false;
+    }
+    return true;
+}
+
 void TargetExecutor::findNextTarget()
 {
     forever {
         m_nextTarget = m_depgraph->findAvailableTarget(m_makefile->options()->buildAllTargets);
         if (m_nextTarget) {
             if (m_nextTarget->m_commands.isEmpty()) {
+                if (isMissing(m_nextTarget)) {
+                    const QString msg = QLatin1String("dependent '%1' does not exist.");
+                    throw Exception(msg.arg(m_nextTarget->targetName()));
+                }
                 // Short cut for targets without commands.
                 m_depgraph->removeLeaf(m_nextTarget);
                 continue;
@@ -231,7 +262,7 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
     Q_CHECK_PTR(executor->target());
     if (commandFailed) {
         m_allCommandsSuccessfullyExecuted = false;
-        if (m_makefile->options()->buildUnrelatedTargetsOnError) {
+        if (m_makefile->options()->buildUnrelatedTargetsOnError && !m_bAborted) {
             // Recursively mark all parents of this node as unbuildable due to unsatisfied
             // dependencies. This must happen before removing the node from the build graph.
             m_depgraph->markParentsRecursivlyUnbuildable(executor->target());
@@ -268,12 +299,7 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
 
     bool abortMakeProcess = commandFailed && !m_makefile->options()->buildUnrelatedTargetsOnError;
     if (abortMakeProcess) {
-        m_bAborted = true;
-        m_depgraph->clear();
-        m_pendingTargets.clear();
-        waitForProcesses();
-        waitForJobClient();
-        finishBuild(2);
+        abortBuild(2);
     }
 
     QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
diff --git a/src/jomlib/targetexecutor.h b/src/jomlib/targetexecutor.h
index fe0a9d9..bed6e40 100644
--- a/src/jomlib/targetexecutor.h
+++ b/src/jomlib/targetexecutor.h
@@ -63,7 +63,9 @@ private:
     int numberOfRunningProcesses() const;
     void waitForProcesses();
     void waitForJobClient();
+    bool isMissing(DescriptionBlock *target) const;
     void findNextTarget();
+    void abortBuild(int exitCode);
 
 private:
     ProcessEnvironment m_environment;
-- 
2.43.0


From a1c6e99f1883ea42ab656c347696552b2bf1b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:29 +0000
Subject: [PATCH 35/47] fix: pass redefined environment macros on to the
 commands

---
 src/jomlib/macrotable.cpp | 15 +++++++++++++--
 src/jomlib/macrotable.h   |  1 +
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index 1dce46c..d55ac35 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -79,6 +79,7 @@ void MacroTable::defineEnvironmentMacroValue(const QString& name, const QString&
     if (!macroData)
         return;
     macroData->source = MacroSource::Environment;
+    macroData->isEnvironmentVariable = true;
     macroData->isReadOnly = readOnly;
     setEnvironmentVariable(upperName, expandedValue);
 }
@@ -137,8 +138,18 @@ void MacroTable::setMacroValueImpl(const QString &name, const QString &value, Ma
     }
 
     macroData->source = source;
-    if (macroData->source == MacroSource::Environment)
-        setEnvironmentVariable(name, expandMacros(macroData->value));
+    if (macroData->isEnvironmentVariable && source == MacroSource::MakeFile
+        && !macroData->isReadOnly)
+    {
+        QString expandedValue;
+        try {
+            expandedValue = expandMacros(macroData->value);
+        } catch (const Exception &) {
+            // The macro cannot be invoked. This is an error if somebody tries to.
+            return;
+        }
+        setEnvironmentVariable(expandMacros(name), expandedValue);
+    }
 }
 
 void MacroTable::predefineValue(const QString &name, const QString &value)
diff --git a/src/jomlib/macrotable.h b/src/jomlib/macrotable.h
index 358fbd1..230bb5a 100644
--- a/src/jomlib/macrotable.h
+++ b/src/jomlib/macrotable.h
@@ -81,6 +81,7 @@ private:
 
     struct MacroData
     {
+        bool isEnvironmentVariable = false;
         MacroSource source = MacroSource::MakeFile;
         bool isReadOnly = false;
         QString value;
-- 
2.43.0


From 99b6e145fe5d5d7ee5cbef54795072b048c48029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:29 +0000
Subject: [PATCH 36/47] fix: keep all environment variables whose names start
 with =

---
 src/jomlib/makefilefactory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/makefilefactory.cpp b/src/jomlib/makefilefactory.cpp
index 6cc05bb..d60695f 100644
--- a/src/jomlib/makefilefactory.cpp
+++ b/src/jomlib/makefilefactory.cpp
@@ -45,7 +45,8 @@ MakefileFactory::MakefileFactory()
 void MakefileFactory::setEnvironment(const QStringList &env)
 {
     for (QStringList::const_iterator it = env.begin(); it != env.end(); ++it) {
-        int idx = it->indexOf(QLatin1Char('='));
+        // The names of some special variables start with '='.
+        int idx = it->indexOf(QLatin1Char('='), 1);
         if (idx >= 0)
             m_environment.insert(it->left(idx), it->mid(idx + 1));
     }
-- 
2.43.0


From 871bb3a67615c3087e3ce1e7ddb57060e8195423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:29 +0000
Subject: [PATCH 37/47] fix: expand %NAME% in set commands, remove variables
 that are set to nothing

---
 src/jomlib/commandexecutor.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index ea77c6e..de93614 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -160,6 +160,27 @@ inline bool commandLineStartsWithCommand(const QString &str, const QString &sear
         && str.startsWith(searchString, Qt::CaseInsensitive);
 }
 
+/**
+ * Replaces %NAME% by the value of the environment variable, like the shell does.
+ */
+static void expandEnvironmentVariables(QString &str, const ProcessEnvironment &environment)
+{
+    int begin = str.indexOf(QLatin1Char('%'));
+    while (begin >= 0) {
+        const int end = str.indexOf(QLatin1Char('%'), begin + 1);
+        if (end < 0)
+            return;
+        const ProcessEnvironment::const_iterator it
+                = environment.constFind(str.mid(begin + 1, end - begin - 1));
+        if (it == environment.constEnd()) {
+            begin = end;
+        } else {
+            str.replace(begin, end - begin + 1, it.value());
+            begin = str.indexOf(QLatin1Char('%'), begin + it.value().length());
+        }
+    }
+}
+
 static bool startsWithShellBuiltin(const QString &commandLine)
 {
     static QRegExp rex(QLatin1String(
@@ -223,7 +244,11 @@ void CommandExecutor::executeCurrentCommandLine()
                 QString variableName = variableAssignment.left(idx);
                 QString variableValue = variableAssignment.mid(idx + 1);
                 ProcessEnvironment environment = m_process.environment();
-                environment.insert(variableName, variableValue);
+                expandEnvironmentVariables(variableValue, environment);
+                if (variableValue.isEmpty())
+                    environment.remove(variableName);
+                else
+                    environment.insert(variableName, variableValue);
                 setEnvironment(environment);
                 emit environmentChanged(environment);
             }
-- 
2.43.0


From caf7fd7564290d523cc8b7b5120bd31ca102ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:29 +0000
Subject: [PATCH 38/47] fix: missing quote in the message of /W

---
 src/app/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index e883ff5..76df074 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -200,7 +200,7 @@ int main(int argc, char* argv[])
         QScopedPointer<JobServer> jobServerDeleter(jobServer);
 
         if (options->printWorkingDir) {
-            printf("jom: Entering directory '%s\n",
+            printf("jom: Entering directory '%s'\n",
                    qPrintable(QDir::toNativeSeparators(QDir::currentPath())));
             fflush(stdout);
         }
-- 
2.43.0


From 8b8097d4b88149c1bbc49110257af3214a3f0938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:00 +0000
Subject: [PATCH 39/47] fix: close the pipes of a command that cannot be
 started directly

---
 src/jomlib/jomprocess.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 624cbdf..2429a45 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -391,6 +391,15 @@ void Process::start(const QString &commandLine)
     free(strCommandLine);
     strCommandLine = 0;
     if (!bResult) {
+        // Nobody else is going to close the pipes.
+        IoCompletionPort::instance()->unregisterObserver(&d->stdoutChannel);
+        IoCompletionPort::instance()->unregisterObserver(&d->stderrChannel);
+        safelyCloseHandle(d->stdinPipe.hRead);
+        safelyCloseHandle(d->stdinPipe.hWrite);
+        safelyCloseHandle(d->stdoutPipe.hRead);
+        safelyCloseHandle(d->stdoutPipe.hWrite);
+        safelyCloseHandle(d->stderrPipe.hRead);
+        safelyCloseHandle(d->stderrPipe.hWrite);
         m_state = NotRunning;
         emit error(FailedToStart);
         return;
-- 
2.43.0


From b111464cd73f52fc5b068443a7d48967902faad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:31 +0000
Subject: [PATCH 40/47] fix: do not recurse endlessly for .SYNC cycles between
 implicit targets

---
 src/jomlib/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 189ed20..5aef92a 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -736,6 +736,7 @@ void Parser::preselectInferenceRules(DescriptionBlock *target)
 {
     if (target->m_bInferenceRulesPreselected)
         return;
+    target->m_bInferenceRulesPreselected = true;
 
     if (target->m_commands.isEmpty()) {
         QVector<InferenceRule *> rules = findRulesByTargetName(target->targetName());
@@ -756,11 +757,10 @@ void Parser::preselectInferenceRules(DescriptionBlock *target)
                 dependent->m_bImplicit = true;
                 dependent->m_inferenceRules = rules;
                 dependent->m_dependents = m_syncPoints.value(dependentName);
+                preselectInferenceRules(dependent);
             }
         }
     }
-
-    target->m_bInferenceRulesPreselected = true;
 }
 
 void Parser::error(const QString& msg)
-- 
2.43.0


From d1ba2edf61c6d3b1fe3fb1e020203f7df599ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:31 +0000
Subject: [PATCH 41/47] fix: find the .SYNC points of implicit targets
 regardless of case

---
 src/jomlib/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 5aef92a..f9e77f4 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -441,7 +441,7 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
                     break;
                 syncDeps = dependents.mid(0, i);
             } else {
-                m_syncPoints[dependents.at(i)] += syncDeps;
+                m_syncPoints[dependents.at(i).toLower()] += syncDeps;
                 ++i;
             }
         }
@@ -756,7 +756,7 @@ void Parser::preselectInferenceRules(DescriptionBlock *target)
                 dependent = createTarget(dependentFileName);
                 dependent->m_bImplicit = true;
                 dependent->m_inferenceRules = rules;
-                dependent->m_dependents = m_syncPoints.value(dependentName);
+                dependent->m_dependents = m_syncPoints.value(dependentName.toLower());
                 preselectInferenceRules(dependent);
             }
         }
-- 
2.43.0


From 1d835a5acc6ffddc09baedb4acf1c290452e3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:55 +0000
Subject: [PATCH 42/47] fix: do not exit in the middle of a build when a
 dependent is missing

---
 src/jomlib/dependencygraph.cpp | 8 +++-----
 src/jomlib/targetexecutor.cpp  | 9 ++++++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index c3bb8bb..7a3a425 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -24,6 +24,7 @@
 ****************************************************************************/
 
 #include "dependencygraph.h"
+#include "exception.h"
 #include "makefile.h"
 #include "options.h"
 #include "fastfileinfo.h"
@@ -201,11 +202,8 @@ void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
         DescriptionBlock* dependent = makefile->dependent(dependentName);
         if (!dependent) {
             if (!FastFileInfo(dependentName).exists()) {
-                QByteArray msg = "Error: dependent '";
-                msg += dependentName.toLocal8Bit();
-                msg += "' does not exist.\n";
-                fputs(msg.constData(), stderr);
-                exit(2);
+                const QString msg = QLatin1String("dependent '%1' does not exist.");
+                throw Exception(msg.arg(dependentName));
             }
             continue;
         }
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 91dba35..027c46d 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -103,7 +103,14 @@ void TargetExecutor::apply(Makefile* mkfile, const QStringList& targets)
         }
     }
 
-    m_depgraph->build(descblock);
+    try {
+        m_depgraph->build(descblock);
+    } catch (const Exception &e) {
+        fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
+        QMetaObject::invokeMethod(this, "finishBuild", Qt::QueuedConnection, Q_ARG(int, 2));
+        return;
+    }
+
     if (m_makefile->options()->dumpDependencyGraph) {
         if (m_makefile->options()->dumpDependencyGraphDot)
             m_depgraph->dotDump();
-- 
2.43.0


From ac0e2d83ee0b46d8dbff5c29168ffdfa912c5939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:55 +0000
Subject: [PATCH 43/47] fix: create relative inline files in the working
 directory of the command

---
 src/jomlib/commandexecutor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index de93614..6a2caa2 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -329,9 +329,16 @@ void CommandExecutor::createTempFiles(Command &cmd)
         }
 
         if (!dryRun) {
+            // The command finds the file relative to its own working directory.
+            const QString workingDir = m_nextWorkingDir.isEmpty() ? m_process.workingDirectory()
+                                                                  : m_nextWorkingDir;
+            QString filePath = fileName;
+            if (!workingDir.isEmpty() && QFileInfo(fileName).isRelative())
+                filePath = workingDir + QLatin1Char('/') + fileName;
+
             TempFile tempFile;
             tempFile.keep = inlineFile->m_keep;
-            tempFile.file = new QFile(fileName);
+            tempFile.file = new QFile(filePath);
             if (!tempFile.file->open(QFile::WriteOnly)) {
                 delete tempFile.file;
                 QString msg = QLatin1String("cannot open %1 for write");
-- 
2.43.0


From 9519df556cbf1b9aceb1d27dd3ccf4537ac54118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:10 +0000
Subject: [PATCH 44/47] fix: do not take $** in dependents for a wildcard

---
 src/jomlib/parser.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index f9e77f4..897762d 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -336,11 +336,12 @@ static QStringList splitTargetNames(const QString& str)
 
 static bool containsWildcard(const QString &str)
 {
-    // Scan for * and ? but ignore patterns like $* and $?
+    // Scan for * and ? but ignore patterns like $*, $** and $?
     enum State {
         InitialState,
         AfterDollarState,
-        AfterDollarParenState
+        AfterDollarParenState,
+        AfterDollarAsteriskState
     };
     State s = InitialState;
     for (int i = 0; i < str.length(); ++i) {
@@ -349,11 +350,14 @@ static bool containsWildcard(const QString &str)
             s = AfterDollarState;
             continue;
         }
-        if (s == AfterDollarState) {
-            s = (ch.unicode() == '(') ? AfterDollarParenState : InitialState;
-        } else if (s == AfterDollarParenState) {
-            s = InitialState;
+        if (s == AfterDollarState && ch == QLatin1Char('(')) {
+            s = AfterDollarParenState;
+        } else if (s == AfterDollarState || s == AfterDollarParenState) {
+            s = (ch == QLatin1Char('*')) ? AfterDollarAsteriskState : InitialState;
+        } else if (s == AfterDollarAsteriskState && ch == QLatin1Char('*')) {
+            s = InitialState;   // the second character of $**
         } else {
+            s = InitialState;
             const ushort c = ch.unicode();
             if (c == '*' || c == '?')
                 return true;
-- 
2.43.0


From 416ef32e29e8f90fe2a5f5599c83604e7bc2855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:10 +0000
Subject: [PATCH 45/47] fix: let .SYNC work with dependents that contain file
 name macros

---
 src/jomlib/parser.cpp | 37 +++++++++++++++++++++----------------
 src/jomlib/parser.h   |  1 +
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 897762d..678bc83 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -435,22 +435,6 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
     QStringList dependents = splitTargetNames(value);
     dependents = expandWildcards(QDir::currentPath(), dependents);
 
-    // handle the special .SYNC dependents
-    {
-        QStringList syncDeps;
-        for (int i=0; i < dependents.count();) {
-            if (dependents.at(i) == QLatin1String(".SYNC")) {
-                dependents.removeAt(i);
-                if (dependents.count() == i)
-                    break;
-                syncDeps = dependents.mid(0, i);
-            } else {
-                m_syncPoints[dependents.at(i).toLower()] += syncDeps;
-                ++i;
-            }
-        }
-    }
-
     foreach (const QString& t, targets) {
         if (t == QStringLiteral(".NOTPARALLEL")) {
             m_makefile->setParallelExecutionDisabled(true);
@@ -472,8 +456,10 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
             descblock->m_canAddCommands = canAddCommands;
             canAddCommands = DescriptionBlock::ACSEnabled;
         }
+        const int firstNewDependent = descblock->m_dependents.count();
         descblock->m_dependents.append(dependents);
         descblock->expandFileNameMacrosForDependents();
+        handleSyncDependents(descblock->m_dependents, firstNewDependent);
 
         if (!commands.isEmpty()) {
             if (canAddCommands == DescriptionBlock::ACSEnabled || descblock->m_commands.isEmpty())
@@ -486,6 +472,25 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
     }
 }
 
+/**
+ * Removes the special .SYNC dependents and stores for each dependent the ones that must be
+ * finished before.
+ */
+void Parser::handleSyncDependents(QStringList &dependents, int firstNewDependent)
+{
+    QStringList syncDeps;
+    for (int i = firstNewDependent; i < dependents.count();) {
+        if (dependents.at(i) == QLatin1String(".SYNC")) {
+            dependents.removeAt(i);
+            syncDeps = dependents.mid(firstNewDependent, i - firstNewDependent);
+        } else {
+            if (!syncDeps.isEmpty())
+                m_syncPoints[dependents.at(i).toLower()] += syncDeps;
+            ++i;
+        }
+    }
+}
+
 bool Parser::parseCommand(QList<Command>& commands, bool inferenceRule)
 {
     // eat empty lines
diff --git a/src/jomlib/parser.h b/src/jomlib/parser.h
index 2661253..86a9d14 100644
--- a/src/jomlib/parser.h
+++ b/src/jomlib/parser.h
@@ -61,6 +61,7 @@ private:
     void parseDescriptionBlock(int separatorPos, int separatorLength, int commandSeparatorPos);
     void parseInferenceRule();
     void parseDotDirective();
+    void handleSyncDependents(QStringList &dependents, int firstNewDependent);
     bool parseCommand(QList<Command>& commands, bool inferenceRule);
     void parseCommandLine(const QString& cmdLine, QList<Command>& commands, bool inferenceRule);
     void parseInlineFiles(Command& cmd, bool inferenceRule);
-- 
2.43.0


From e48dac4560741ba95e69712e8e7c03b105e02a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:10 +0000
Subject: [PATCH 46/47] fix: tolerate every exit code if the number after -
 exceeds 32 bits

---
 src/jomlib/makefile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 4836594..2d5693c 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -94,7 +94,10 @@ void Command::evaluateModifiers()
             while (i < m_commandLine.length() && m_commandLine.at(i).isDigit())
                 ++i;
             if (i > 0) {
-                m_maxExitCode = m_commandLine.mid(0, i).toUInt();
+                bool ok;
+                m_maxExitCode = m_commandLine.mid(0, i).toUInt(&ok);
+                if (!ok)    // larger than any exit code
+                    m_maxExitCode = std::numeric_limits<unsigned int>::max();
                 m_commandLine.remove(0, i);
             } else {
                 m_maxExitCode = std::numeric_limits<unsigned int>::max();
-- 
2.43.0


From dbc4e1e35a22a730dc26a479b71e471c6b58ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:10 +0000
Subject: [PATCH 47/47] fix: compare relative and absolute target names in the
 current directory

---
 src/jomlib/makefile.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 2d5693c..837c07c 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -460,10 +460,9 @@ DescriptionBlock* Makefile::dependent(const QString& name) const
 
 const QString &Makefile::dirPath() const
 {
-    if (m_dirPath.isEmpty()) {
-        QFileInfo fi(m_fileName);
-        m_dirPath = fi.absolutePath();
-    }
+    // Relative names are relative to the current directory, wherever the makefile is.
+    if (m_dirPath.isEmpty())
+        m_dirPath = QDir::currentPath();
     return m_dirPath;
 }
 
-- 
2.43.0

