From 405f85ab5bf914bf0b3a4d84eff3e3c0c959fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 01/35] fix: decode the letters of \xHH escapes in
 configuration strings

---
 src/Configuration.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index da9de39..57d2c78 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -28,11 +28,11 @@ static char parseHexValue(char c)
 	if (c >= '0' && c <= '9')
 		return c - '0';
 	else if (c >= 'a' && c <= 'f')
-		return c - 'a';
+		return c - 'a' + 10;
 	else if (!(c >= 'A' && c <= 'F'))
 		LOG_ERROR << "Invalid hex character in configuration: " << c;
 
-	return c - 'A';
+	return c - 'A' + 10;
 }
 
 // Parses a string from the configuration.
@@ -82,9 +82,12 @@ static std::size_t parseString(const std::string &configurationString, std::size
 						case '0': value += '\0'; break;
 
 						case 'x':
-							value += (parseHexValue(configurationString[offset + 1]) << 4) + parseHexValue(configurationString[offset + 2]);
+						{
+							const char high = parseHexValue(configurationString[offset + 1]); // Must be evaluated first, since the next character only exists if this one does
+							value += char((high << 4) + parseHexValue(configurationString[offset + 2]));
 							offset += 2;
 							break;
+						}
 
 						default: LOG_ERROR << "Unrecognized escape sequence (\\" << configurationString[offset] << ") in string " << configurationString.substr(start, offset + 1 - start) << "...";
 					}
-- 
2.43.0


From 3fe511fdd57d205377e2f60560b0a66e11c2c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 02/35] fix: separate the directory following a leading ../
 when normalizing a relative path

---
 src/Utilities.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cxx b/src/Utilities.cxx
index af67bef..f354a9e 100644
--- a/src/Utilities.cxx
+++ b/src/Utilities.cxx
@@ -627,7 +627,7 @@ std::string k8psh::Utilities::normalizePath(const std::string &path)
 		{
 			directories.push_back(newPath.length());
 
-			if (directories.size() > 1)
+			if (!newPath.empty() && !isPathSeparator(newPath[newPath.length() - 1]))
 				newPath += PATH_SEPARATOR;
 
 			newPath += path.substr(start, i - start);
-- 
2.43.0


From d94d5131d7a2dfc9a98187ebe96674a67636168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 03/35] fix: do not remove the server's client executables and
 PID file when a session fails

---
 src/Main.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 4ea51b0..53d6854 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -652,7 +652,10 @@ static void mainServer(int argc, const char *argv[])
 					{
 						(void)close(listener.abandon());
 						signal(SIGCHLD, SIG_DFL);
-						k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client));
+
+						try { k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client)); }
+						catch (...) { std::abort(); } // The error has already been logged, and only the server itself may remove the client executables and PID file
+
 						std::exit(0);
 					}
 
-- 
2.43.0


From d2a1e6244f828ea6eb4531208bf0b659db6333f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 04/35] fix: do not leak the exit request pipe into sessions,
 which keeps the server from exiting on a signal

---
 src/Main.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 53d6854..81183af 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -651,6 +651,8 @@ static void mainServer(int argc, const char *argv[])
 					if (child == 0)
 					{
 						(void)close(listener.abandon());
+						exitRequested.closeInput(); // The server only detects an exit request once all copies have been closed
+						exitRequested.closeOutput();
 						signal(SIGCHLD, SIG_DFL);
 
 						try { k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client)); }
-- 
2.43.0


From e42df1131a4b90770c582adfeb7ae146153a0441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:38 +0000
Subject: [PATCH 05/35] fix: consume stdin data received after the process has
 closed its stdin

---
 src/Process.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 012137c..c80cef4 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -905,7 +905,10 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 							LOG_DEBUG << "Received stdin data (" << payloadValue << " bytes) from client";
 
 							if (stdInPipe.getInput() == Pipe::INVALID_HANDLE)
+							{
 								LOG_DEBUG << "Ignoring " << payloadValue << " received bytes due to closed stdin"; // Ignore data on stdin after close
+								(void)receiveSocket.readString(payloadValue);
+							}
 							else if (!payloadValue)
 								closeStdIn = true;
 							else
-- 
2.43.0


From 6cb5978d990c6c1baf14338909c1b62a5db97080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 06/35] fix: avoid undefined behavior when an unknown payload
 type is received

---
 src/Process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index c80cef4..710fe25 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -46,7 +46,7 @@
 /**
  * Payloads are 5 bytes: 1-byte payload type, and if strings (4 byte little-endian length prefixed), exit code (4 byte little-endian signed int), or 4 byte zeros
  */
-enum PayloadType {
+enum PayloadType : std::uint32_t {
 	WORKING_DIRECTORY = 0, // string, client -> server
 	ENVIRONMENT_VARIABLE,  // string, client -> server
 	COMMAND_ARGUMENT,      // string, client -> server
-- 
2.43.0


From 99d97763dafbc8672718eba4ba57b7b4587d8d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:44 +0000
Subject: [PATCH 07/35] fix: deliver received output immediately and detect
 when it cannot be written

---
 src/Process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 710fe25..fed559d 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -247,7 +247,7 @@ static void outputStdStreamData(std::ostream &stream, FILE *file, const char *na
 		LOG_DEBUG << "Received " << name << " data (" << length << " bytes) from server";
 		std::string data = receiveSocket.readString(length);
 
-		if (!std::fwrite(data.data(), data.length(), 1, file))
+		if (!std::fwrite(data.data(), data.length(), 1, file) || std::fflush(file) != 0)
 			LOG_ERROR << "Failed to write " << name << " data";
 	}
 	else if (!stream.eof())
-- 
2.43.0


From 802f3458db6cf92637d14808bf10bd7924ba79bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 08/35] fix: stop polling stdin in the client once the server
 has closed it

---
 src/Process.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index fed559d..acba133 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -429,6 +429,9 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 						LOG_DEBUG << "Received stdin close command from server";
 						std::cin.setstate(std::ios_base::eofbit);
 						(void)std::fclose(stdin);
+#ifndef _WIN32
+						pollSet[0].fd = -1; // Polling the closed stdin would return immediately
+#endif
 					}
 
 					break;
-- 
2.43.0


From 5891c64a302aec42bc91c2ec83e2e40719a03300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:50 +0000
Subject: [PATCH 09/35] fix: terminate the process whenever its session fails,
 including when the connection is reset

---
 src/Process.cxx | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index acba133..656f3b1 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -472,9 +472,11 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 	BufferedReceiveSocket receiveSocket(socket);
 #ifdef _WIN32
 	HANDLE process = HANDLE();
+#else
+	pid_t process = -1;
+#endif
 
 	try
-#endif
 	{
 		// Read all the data for the command to execute
 		std::string processDirectory;
@@ -682,7 +684,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			(void)CloseHandle(pi.hThread);
 		}
 #else
-		int process = fork();
+		process = fork();
 
 		switch (process)
 		{
@@ -819,6 +821,9 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				stdInData.clear();
 				stdInPipe.closeInput();
 				processHasExited = true;
+#ifndef _WIN32
+				process = -1;
+#endif
 			}
 
 #ifndef _WIN32
@@ -924,7 +929,10 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 #ifdef _WIN32
 						(void)TerminateProcess(process, UINT(-1));
 #else
-						(void)kill(process, 15); // Send TERM
+						if (process > 0)
+							(void)kill(process, 15); // Send TERM
+
+						process = -1;
 #endif
 
 						if (!dataReceived)
@@ -988,6 +996,8 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				if (pid < 0 && errno != EINTR)
 					LOG_ERROR << "Failed to get exit code of process: " << errno;
 			}
+
+			process = -1;
 		}
 
 		if (WIFEXITED(exitStatus)) // Only send exit code on normal termination
@@ -1007,5 +1017,13 @@ terminateServer:
 
 	// Clean up all resources, since we are part of the long-running server process
 	(void)CloseHandle(process);
+#else
+	catch (...)
+	{
+		if (process > 0)
+			(void)kill(process, 15); // Send TERM, since the session can no longer continue
+
+		throw;
+	}
 #endif
 }
-- 
2.43.0


From 5f3971993ecdbfbf0b64fcc03f905007867aeba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:36 +0000
Subject: [PATCH 10/35] fix: do not lose the terminate signal when it is sent
 before the executable has started

---
 src/Process.cxx | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 656f3b1..81412fc 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -31,6 +31,7 @@
 	#include <cstdlib>
 
 	#include <poll.h>
+	#include <signal.h>
 	#include <sys/wait.h>
 	#include <unistd.h>
 
@@ -684,8 +685,24 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			(void)CloseHandle(pi.hThread);
 		}
 #else
+		// Block signals until the new process has reset the server's handlers, so that a terminate signal sent before the executable starts is not lost
+		sigset_t blockedSignals;
+		sigset_t originalSignals;
+
+		(void)sigemptyset(&blockedSignals);
+		(void)sigaddset(&blockedSignals, SIGINT);
+		(void)sigaddset(&blockedSignals, SIGTERM);
+		(void)sigprocmask(SIG_BLOCK, &blockedSignals, &originalSignals);
 		process = fork();
 
+		if (process == 0)
+		{
+			signal(SIGINT, SIG_DFL);
+			signal(SIGTERM, SIG_DFL);
+		}
+
+		(void)sigprocmask(SIG_SETMASK, &originalSignals, NULL);
+
 		switch (process)
 		{
 		case 0:
-- 
2.43.0


From c48a4991b1c6612964eaee77b7341f268d726d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 11/35] fix: do not starve stdin (or stdout) while a continuous
 stream of data is received

---
 src/Process.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 81412fc..fa59876 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -62,6 +62,7 @@ enum PayloadType : std::uint32_t {
 };
 
 static const std::size_t DATA_BUFFER_SIZE = 1024 * 64;
+static const std::size_t MAX_CONSECUTIVE_PAYLOADS = 16; // Limits the received payloads that are processed in a row, so that a continuous stream does not starve the other direction
 
 #ifdef _WIN32
 class SynchronousData
@@ -411,7 +412,7 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 		else if ((pollSet[1].revents & (POLLIN | POLLHUP)) != 0 || receiveSocket.hasBufferedData())
 #endif
 		{
-			for (bool skipCheck = K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK; skipCheck || receiveSocket.hasData(); skipCheck = false)
+			for (std::size_t i = 0; i < MAX_CONSECUTIVE_PAYLOADS && ((i == 0 && K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK) || receiveSocket.hasData()); i++)
 			{
 				PayloadType type;
 				std::uint32_t payloadValue;
@@ -916,7 +917,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			else if ((pollSet[3].revents & (POLLIN | POLLHUP)) != 0 || receiveSocket.hasBufferedData())
 #endif
 			{
-				for (bool skipCheck = K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK; skipCheck || receiveSocket.hasData(); skipCheck = false)
+				for (std::size_t i = 0; i < MAX_CONSECUTIVE_PAYLOADS && ((i == 0 && K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK) || receiveSocket.hasData()); i++)
 				{
 					bool dataReceived = receiveSocket.read(type, payloadValue);
 
-- 
2.43.0


From 522e180d4083141333710d433af214c76621329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 12/35] fix: do not reset the connection at the end of a
 session when stdin has not been fully read

---
 src/Process.cxx |  2 ++
 src/Socket.cxx  | 40 ++++++++++++++++++++++++++++++++++++++++
 src/Socket.hxx  |  4 ++++
 3 files changed, 46 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index fa59876..70980bc 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -1027,6 +1027,8 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		}
 #endif
 
+		socket.finish();
+
 terminateServer:
 		;
 	}
diff --git a/src/Socket.cxx b/src/Socket.cxx
index 7ebf00a..14d1efe 100644
--- a/src/Socket.cxx
+++ b/src/Socket.cxx
@@ -229,6 +229,46 @@ void k8psh::Socket::close()
 	}
 }
 
+// Closes the socket gracefully, by waiting for the other end to close the connection before closing the socket. Any data received while waiting is discarded.
+void k8psh::Socket::finish()
+{
+	char discarded[4096];
+
+	LOG_DEBUG << "Waiting for connection " << _handle << " to be closed";
+#ifdef _WIN32
+	(void)shutdown(_handle, SD_SEND);
+#else
+	(void)shutdown(_handle, SHUT_WR);
+#endif
+
+	for (;;)
+	{
+		auto received = recv(_handle, discarded, sizeof(discarded), 0);
+
+		if (received == 0)
+			break;
+		else if (received > 0)
+			continue;
+
+#ifdef _WIN32
+		if (getSocketErrorCode() != WSAEWOULDBLOCK)
+			break;
+
+		fd_set fdSet;
+
+		FD_ZERO(&fdSet);
+		FD_SET(_handle, &fdSet);
+
+		(void)select(0, &fdSet, NULL, NULL, NULL);
+#else
+		if (getSocketErrorCode() != EINTR)
+			break;
+#endif
+	}
+
+	close();
+}
+
 // Gets the bound port of the socket, or zero if the socket is not valid.
 unsigned short k8psh::Socket::getPort() const
 {
diff --git a/src/Socket.hxx b/src/Socket.hxx
index a49f7bb..f4d1074 100644
--- a/src/Socket.hxx
+++ b/src/Socket.hxx
@@ -86,6 +86,10 @@ public:
 	// Closes the socket.
 	void close();
 
+	// Closes the socket gracefully, by waiting for the other end to close the connection before closing the socket. Any data received while waiting is discarded.
+	// (Closing a socket that has unread data resets the connection, which may cause the other end to lose data that has already been written.)
+	void finish();
+
 	// Creates a read event, if it does not already exist, that can be used to poll the socket for new data.
 	// (On Windows the socket will automatically be placed in non-blocking mode, and the event is subject to spurious wake-ups since it is reset after a wait rather than after a read.)
 	Event createReadEvent();
-- 
2.43.0


From 713e1b8cbb0fee2eb16a218940a439afe6fe951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 13/35] fix: replace the whole file when installing over an
 existing file

---
 src/Main.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 81183af..9316710 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -156,7 +156,7 @@ static void mainClient(int argc, const char *argv[])
 					if (source < 0)
 						LOG_ERROR << "Failed to open " << clientCommand << ": " << errno;
 
-					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT, 0755);
+					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0755);
 
 					if (dest < 0)
 						LOG_ERROR << "Failed to open " << installFilename << ": " << errno;
@@ -185,6 +185,10 @@ static void mainClient(int argc, const char *argv[])
 							LOG_ERROR << "Failed to read data from " << clientCommand << " to be installed into " << installFilename << ": " << errno;
 					}
 
+					// An existing file may not have been executable
+					if (access(installFilename.c_str(), X_OK) != 0 && fchmod(dest, 0755) != 0)
+						LOG_ERROR << "Failed to make " << installFilename << " executable: " << errno;
+
 					(void)close(source);
 					(void)close(dest);
 				}
-- 
2.43.0


From a034fa5bf0a27c3ecc688221d102476a4f08032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 14/35] fix: clean up client executables and PID files with
 relative filenames when running in the background

---
 src/Main.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 9316710..d8407f3 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -550,6 +550,14 @@ static void mainServer(int argc, const char *argv[])
 				signal(SIGHUP, SIG_IGN);
 				signal(SIGCHLD, SIG_IGN);
 
+				// Relative filenames are still needed to clean up after changing the working directory
+				const std::string workingDirectory = k8psh::Utilities::getWorkingDirectory() + '/';
+
+				for (auto it = createdExecutables.begin(); it != createdExecutables.end(); ++it)
+					*it = k8psh::Utilities::isAbsolutePath(*it) ? *it : workingDirectory + *it;
+
+				pidFilename = k8psh::Utilities::isAbsolutePath(pidFilename) ? pidFilename : workingDirectory + pidFilename;
+
 				(void)k8psh::Utilities::changeWorkingDirectory("/");
 				(void)umask(0);
 
-- 
2.43.0


From 4cb66b9a2e35b058ddd07603be17fbd215c09613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 15/35] fix: reject sequentially numbered ports that are out of
 range

---
 src/Configuration.cxx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index 57d2c78..0f997e9 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -240,7 +240,7 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 
 	// Parse server settings
 	std::shared_ptr<Host> currentHost;
-	unsigned short currentPort = DEFAULT_STARTING_PORT;
+	unsigned long currentPort = DEFAULT_STARTING_PORT;
 	std::vector<std::pair<std::string, std::string> > environmentVariables;
 
 	for (;;)
@@ -270,17 +270,15 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 						LOG_ERROR << "Invalid port number \"" << port << '"';
 				}
 
-				unsigned long portValue = std::stoul(port);
-
-				if (portValue >= 65536)
-					LOG_ERROR << "Port out of range: " << portValue;
-
-				currentPort = static_cast<unsigned short>(portValue);
+				currentPort = std::stoul(port);
 			}
 
+			if (currentPort >= 65536)
+				LOG_ERROR << "Port out of range: " << currentPort;
+
 			// Assign the new host information
 			currentHost->_hostname = host.substr(0, colon);
-			currentHost->_port = currentPort++;
+			currentHost->_port = static_cast<unsigned short>(currentPort++);
 
 			// Parse the options for environment variables
 			environmentVariables.clear();
-- 
2.43.0


From a8b795b2f78cd16b84af9db6c561f65355fb0e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:09 +0000
Subject: [PATCH 16/35] fix: do not log or change errno in the signal handler

---
 src/Main.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index d8407f3..9e8b5d5 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -240,13 +240,15 @@ template <typename T> static T clampPositive(T value, T max)
 }
 
 // Handles signals by requesting that the application exit.
-extern "C" void handleSignal(int signal)
+extern "C" void handleSignal(int)
 {
-	LOG_DEBUG << "Handling signal " << signal;
 #ifdef _WIN32
 	(void)SetEvent(exitRequested);
 #else
+	const int savedErrno = errno; // Only async-signal-safe functions can be used here (so no logging)
+
 	exitRequested.closeInput();
+	errno = savedErrno;
 #endif
 }
 
-- 
2.43.0


From dfbab1cc984a57ee1913d32fb608f91e31c8424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 17/35] fix: do not overflow when computing the end time of
 very large timeouts

---
 src/Main.cxx      | 3 ++-
 src/Process.cxx   | 3 ++-
 src/Utilities.hxx | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 9e8b5d5..ddd9852 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -1,6 +1,7 @@
 // This software is released as part of the k8psh project.
 // Portions of this software are public domain or licensed under the MIT license. (See the license file for details.)
 
+#include <algorithm>
 #include <chrono>
 #include <csignal>
 #include <cstdio>
@@ -511,7 +512,7 @@ static void mainServer(int argc, const char *argv[])
 			try { timeoutMs = std::stoll(timeout); }
 			catch (const std::exception &e) { LOG_ERROR << "Failed to parse timeout (" << timeout << "): " << e.what(); }
 
-			auto endTime = timeoutMs >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(timeoutMs) : std::chrono::steady_clock::time_point::max();
+			auto endTime = timeoutMs >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(std::min(timeoutMs, +k8psh::Utilities::MAX_TIMEOUT_MS)) : std::chrono::steady_clock::time_point::max();
 
 			// Daemonize, if desired
 			if (daemonize)
diff --git a/src/Process.cxx b/src/Process.cxx
index 70980bc..d169243 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -3,6 +3,7 @@
 
 #include "Process.hxx"
 
+#include <algorithm>
 #include <chrono>
 #include <cstdint>
 #include <cstdio>
@@ -276,7 +277,7 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 	Socket socket;
 	BufferedSendSocket sendSocket(socket);
 	BufferedReceiveSocket receiveSocket(socket);
-	auto endTime = configuration.getConnectTimeoutMs() >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(configuration.getConnectTimeoutMs()) : std::chrono::steady_clock::time_point::max();
+	auto endTime = configuration.getConnectTimeoutMs() >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(std::min(configuration.getConnectTimeoutMs(), +Utilities::MAX_TIMEOUT_MS)) : std::chrono::steady_clock::time_point::max();
 	std::chrono::milliseconds backoff = std::chrono::milliseconds(16);
 
 	// Connect to the server
diff --git a/src/Utilities.hxx b/src/Utilities.hxx
index f188d41..76ec4ab 100644
--- a/src/Utilities.hxx
+++ b/src/Utilities.hxx
@@ -179,6 +179,8 @@ public:
 	static const char PATH_SEPARATOR = '/';
 #endif
 
+	static constexpr long long MAX_TIMEOUT_MS = 1000LL * 60 * 60 * 24 * 365 * 100; // Limit timeouts to 100 years to avoid overflow
+
 	/** Changes the working directory of the process.
 	 *
 	 * @param directory the new working directory of the process, which can be relative to the current working directory or absolute
-- 
2.43.0


From 3b51e84d45f91839174b5748b19b7fb16cd9c801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:45 +0000
Subject: [PATCH 18/35] fix: clean up when the server is terminated while it is
 still starting

---
 src/Main.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index ddd9852..5952126 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -469,6 +469,15 @@ static void mainServer(int argc, const char *argv[])
 
 	try
 	{
+#ifndef _WIN32
+		// Any files created from now on have to be cleaned up on exit
+		if (listener.isValid())
+		{
+			signal(SIGTERM, handleSignal);
+			signal(SIGINT, handleSignal);
+		}
+#endif
+
 		for (auto it = commands.begin(); it != commands.end(); ++it)
 		{
 #ifdef _WIN32
@@ -583,10 +592,10 @@ static void mainServer(int argc, const char *argv[])
 			}
 #endif
 
+#ifdef _WIN32
 			signal(SIGTERM, handleSignal);
 			signal(SIGINT, handleSignal);
 
-#ifdef _WIN32
 			(void)SetConsoleCtrlHandler(handleCtrlC, TRUE);
 #endif
 
-- 
2.43.0


From 0e1ebe8f56299b680a923e9e25556a80b390a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 19/35] fix: do not reuse the descriptors of closed standard
 streams for pipes and sockets

---
 src/Main.cxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 5952126..adabb26 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -226,6 +226,21 @@ static void mainClient(int argc, const char *argv[])
 #ifdef _WIN32
 static HANDLE exitRequested;
 #else
+// Occupies any standard streams that were closed by the caller, so that their descriptors are not reused for pipes or sockets
+static struct StandardStreams
+{
+	StandardStreams()
+	{
+		int fd;
+
+		do fd = open("/dev/null", O_RDWR, 0);
+		while (fd >= 0 && fd <= STDERR_FILENO);
+
+		if (fd > STDERR_FILENO)
+			(void)close(fd);
+	}
+} standardStreams;
+
 static k8psh::Pipe exitRequested;
 #endif
 
-- 
2.43.0


From b8cadac16f80240872ed680df89f955e3cf4235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 20/35] fix: clean up when the server is hung up while it is
 still starting

---
 src/Main.cxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index adabb26..20acc50 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -490,6 +490,7 @@ static void mainServer(int argc, const char *argv[])
 		{
 			signal(SIGTERM, handleSignal);
 			signal(SIGINT, handleSignal);
+			signal(SIGHUP, handleSignal);
 		}
 #endif
 
@@ -601,10 +602,7 @@ static void mainServer(int argc, const char *argv[])
 			}
 #ifndef _WIN32
 			else
-			{
-				signal(SIGHUP, handleSignal);
 				signal(SIGCHLD, SIG_IGN);
-			}
 #endif
 
 #ifdef _WIN32
-- 
2.43.0


From 3865676652d16cae1c1223c38c2e20b8e7f021cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 21/35] fix: do not connect to itself when the port of a server
 that is not listening is an ephemeral port

---
 src/Socket.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Socket.cxx b/src/Socket.cxx
index 14d1efe..55799c0 100644
--- a/src/Socket.cxx
+++ b/src/Socket.cxx
@@ -167,6 +167,16 @@ k8psh::Socket k8psh::Socket::connect(unsigned short port, bool failOnError)
 		return INVALID_HANDLE;
 	}
 
+	// Without a listener, a socket may be assigned the port that it connects to as its own (if it is an ephemeral port), which connects the socket to itself
+	if (socket.getPort() == port)
+	{
+		if (failOnError)
+			LOG_ERROR << "Failed to connect to port " << port << ": connected to itself";
+
+		LOG_DEBUG << "Connected to itself on port " << port << " on socket " << socket._handle;
+		return INVALID_HANDLE;
+	}
+
 	setSocketOptions(socket._handle);
 	LOG_DEBUG << "Connected to port " << port << " on socket " << socket._handle;
 	return socket;
-- 
2.43.0


From 7ee59cb1d9f706b47d9cc5fa83fbdb06692e598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 22/35] fix: ignore hang-ups from the beginning when running in
 the background

---
 src/Main.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 20acc50..1c43c0b 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -546,6 +546,7 @@ static void mainServer(int argc, const char *argv[])
 				LOG_ERROR << "Daemon not supported";
 #else
 				LOG_DEBUG << "Starting daemon";
+				signal(SIGHUP, SIG_IGN); // The daemon has to ignore it from the beginning, since the caller may hang up as soon as this process exits
 
 				switch (fork())
 				{
@@ -575,7 +576,6 @@ static void mainServer(int argc, const char *argv[])
 				if (setsid() == -1)
 					std::exit(-1);
 
-				signal(SIGHUP, SIG_IGN);
 				signal(SIGCHLD, SIG_IGN);
 
 				// Relative filenames are still needed to clean up after changing the working directory
-- 
2.43.0


From cbe4578b333992c0e2ed20180ccfefba27517957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 23/35] fix: do not start a command in the base directory when
 the client's directory cannot be determined

---
 src/Main.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 1c43c0b..0a10788 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -219,8 +219,13 @@ static void mainClient(int argc, const char *argv[])
 	if (commandIt == configuration.getCommands().end())
 		LOG_ERROR << "Failed to find command \"" << commandName << "\" in configuration";
 
+	const std::string workingDirectory = k8psh::Utilities::getWorkingDirectory();
+
+	if (workingDirectory.empty())
+		LOG_ERROR << "Working directory could not be determined";
+
 	LOG_DEBUG << "Starting command " << commandName;
-	std::exit(k8psh::Process::runRemoteCommand(k8psh::Utilities::relativizePath(configuration.getBaseDirectory(), k8psh::Utilities::getWorkingDirectory()), commandIt->second, std::size_t(argc) - i, argv + i, configuration));
+	std::exit(k8psh::Process::runRemoteCommand(k8psh::Utilities::relativizePath(configuration.getBaseDirectory(), workingDirectory), commandIt->second, std::size_t(argc) - i, argv + i, configuration));
 }
 
 #ifdef _WIN32
-- 
2.43.0


From 95decff07a2e227fff848535d49f3888e3044114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:01 +0000
Subject: [PATCH 24/35] fix: report write errors that are only detected when
 closing the installed file

---
 src/Main.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 0a10788..9504bd7 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -191,7 +191,10 @@ static void mainClient(int argc, const char *argv[])
 						LOG_ERROR << "Failed to make " << installFilename << " executable: " << errno;
 
 					(void)close(source);
-					(void)close(dest);
+
+					// Delayed write errors may only be reported when closing the file
+					if (close(dest) != 0)
+						LOG_ERROR << "Failed to write data to " << installFilename << " while installing from " << clientCommand << ": " << errno;
 				}
 #endif
 
-- 
2.43.0


From b8f3f6c93ffa4e69f8d303235d152fae8e7fa6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 25/35] fix: stop at the time limit even if connections keep
 coming in

---
 src/Main.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 9504bd7..61adc54 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -643,6 +643,11 @@ static void mainServer(int argc, const char *argv[])
 			{
 				auto remainingMs = std::chrono::duration_cast<std::chrono::milliseconds>(endTime -
 					(timeoutMs >= 0 ? std::chrono::steady_clock::now() : std::chrono::steady_clock::time_point::max())).count();
+
+				// Connections may keep coming in, so do not rely on the wait for a new connection to time out
+				if (timeoutMs >= 0 && remainingMs <= 0)
+					break;
+
 #ifdef _WIN32
 				auto waitMs = clampPositive(remainingMs, std::chrono::milliseconds::rep(INFINITE - 1));
 				DWORD waitResult = WaitForMultipleObjects(DWORD(sizeof(waitSet) / sizeof(waitSet[0]) - (listener.isValid() ? 0 : 1)), waitSet, FALSE, timeoutMs >= 0 ? DWORD(waitMs) : INFINITE);
-- 
2.43.0


From f3d0c393d34300a77331ddb85d309a81d7f39e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 26/35] fix: reject connection timeouts that are followed by
 other characters

---
 src/Configuration.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index 0f997e9..4af76a5 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -4,6 +4,7 @@
 #include "Configuration.hxx"
 
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -230,7 +231,15 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 				configuration._baseDirectory = Utilities::normalizePath(Utilities::isAbsolutePath(value) ? value : Utilities::getAbsolutePath(absoluteWorkingPath + '/' + value));
 			else if (key == "connectTimeoutMs")
 			{
-				try { configuration._connectTimeoutMs = std::stoll(value); }
+				try
+				{
+					std::size_t length;
+
+					configuration._connectTimeoutMs = std::stoll(value, &length);
+
+					if (length != value.length())
+						throw std::invalid_argument("trailing characters");
+				}
 				catch (const std::exception &e) { LOG_ERROR << "Failed to parse connectTimeoutMs (" << value << "): " << e.what(); }
 			}
 			else
-- 
2.43.0


From 0523c269065bcf65abd47d2abf17ef7b04d6b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 27/35] fix: reject connection and time limits that are
 followed by other characters

---
 src/Main.cxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 61adc54..80e49c0 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -7,6 +7,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -263,6 +264,18 @@ template <typename T> static T clampPositive(T value, T max)
 	return value;
 }
 
+// Parses a number, throws an exception unless the entire value is one.
+static long long parseNumber(const std::string &value)
+{
+	std::size_t length;
+	const long long number = std::stoll(value, &length);
+
+	if (length != value.length())
+		throw std::invalid_argument("trailing characters");
+
+	return number;
+}
+
 // Handles signals by requesting that the application exit.
 extern "C" void handleSignal(int)
 {
@@ -539,10 +552,10 @@ static void mainServer(int argc, const char *argv[])
 			long long maxConnections = 0;
 			long long timeoutMs = 0;
 
-			try { maxConnections = std::stoll(connections); }
+			try { maxConnections = parseNumber(connections); }
 			catch (const std::exception &e) { LOG_ERROR << "Failed to parse max connections: " << e.what(); }
 
-			try { timeoutMs = std::stoll(timeout); }
+			try { timeoutMs = parseNumber(timeout); }
 			catch (const std::exception &e) { LOG_ERROR << "Failed to parse timeout (" << timeout << "): " << e.what(); }
 
 			auto endTime = timeoutMs >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(std::min(timeoutMs, +k8psh::Utilities::MAX_TIMEOUT_MS)) : std::chrono::steady_clock::time_point::max();
-- 
2.43.0


From 303f8fa92f0cdd46044a47e429c789e69e3b7ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 28/35] fix: do not end the server when no process can be
 created for a client

---
 src/Main.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 80e49c0..2a7a9eb 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -726,8 +726,8 @@ static void mainServer(int argc, const char *argv[])
 
 					(void)close(client.abandon());
 
-					if (child == -1)
-						LOG_ERROR << "Failed to fork client: " << errno;
+					if (child == -1) // This may only be temporary, so continue to serve other clients
+						LOG_WARNING << "Failed to fork client: " << errno;
 #endif
 
 					connectionCount++;
-- 
2.43.0


From 171188e8eab505f4cd0d1ca159f94fb91f9cfc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 29/35] fix: report delayed write errors of the client's output
 streams

---
 src/Process.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index d169243..d34cee4 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -258,7 +258,10 @@ static void outputStdStreamData(std::ostream &stream, FILE *file, const char *na
 		LOG_DEBUG << "Received " << name << " close command from server";
 		stream.flush();
 		stream.setstate(std::ios_base::eofbit);
-		(void)std::fclose(file);
+
+		// Delayed write errors may only be reported when closing the file
+		if (std::fclose(file) != 0)
+			LOG_ERROR << "Failed to write " << name << " data";
 	}
 }
 
-- 
2.43.0


From f1eec024a601c41953814241e3060490212e1e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 30/35] fix: terminate the process before closing its stdin
 when its session fails

---
 src/Process.cxx | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index d34cee4..001e889 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -478,11 +478,11 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 	BufferedReceiveSocket receiveSocket(socket);
 #ifdef _WIN32
 	HANDLE process = HANDLE();
+
+	try
 #else
 	pid_t process = -1;
 #endif
-
-	try
 	{
 		// Read all the data for the command to execute
 		std::string processDirectory;
@@ -588,6 +588,20 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		Pipe stdOutPipe;
 		Pipe stdErrPipe;
 
+#ifndef _WIN32
+		// Terminates the process if the session can no longer continue, before closing its pipes (otherwise, it could mistake the part of stdin received so far for all of it)
+		struct Terminator
+		{
+			pid_t &process;
+
+			~Terminator()
+			{
+				if (process > 0)
+					(void)kill(process, 15); // Send TERM
+			}
+		} terminator = { process };
+#endif
+
 #ifdef _WIN32
 		{
 			std::string env;
@@ -1041,13 +1055,5 @@ terminateServer:
 
 	// Clean up all resources, since we are part of the long-running server process
 	(void)CloseHandle(process);
-#else
-	catch (...)
-	{
-		if (process > 0)
-			(void)kill(process, 15); // Send TERM, since the session can no longer continue
-
-		throw;
-	}
 #endif
 }
-- 
2.43.0


From 2733d1e3cffb704d86046336be244c72bf75fbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 31/35] fix: do not end the server when nobody reads its
 messages any more

---
 src/Main.cxx    | 4 ++++
 src/Process.cxx | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 2a7a9eb..282fe40 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -318,6 +318,10 @@ static void mainServer(int argc, const char *argv[])
 	std::string pidFilename = defaultPidFilename;
 	std::string timeout = "-1";
 
+#ifndef _WIN32
+	signal(SIGPIPE, SIG_IGN); // Messages that can no longer be written must not end the server
+#endif
+
 	// Parse command line arguments
 	for (std::size_t i = 1; i < std::size_t(argc); i++)
 	{
diff --git a/src/Process.cxx b/src/Process.cxx
index 001e889..caf208f 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -784,6 +784,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 					LOG_ERROR << "Failed to map stdin, stdout, and stderr";
 
 				environ = const_cast<char **>(env.data());
+				signal(SIGPIPE, SIG_DFL);
 
 				// First, try the working directory (this provides compatibility across different platforms), then try the search path
 				(void)execv(argv[0], (char * const *)argv.data());
-- 
2.43.0


From 5ea3d7b727a7d48a8986f80f5a236d92f45374e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 32/35] fix: wait for the sessions only when shutting down, not
 for inherited or adopted processes

---
 src/Main.cxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 282fe40..363a386 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -652,6 +652,11 @@ static void mainServer(int argc, const char *argv[])
 
 			pollSet[1].fd = listener.createReadEvent();
 			pollSet[1].events = POLLIN;
+
+			// Kept open by all sessions until they terminate (there may be other children, which were inherited or adopted)
+			k8psh::Pipe activeSessions;
+
+			(void)fcntl(activeSessions.getInput(), F_SETFD, FD_CLOEXEC);
 #endif
 
 			LOG_DEBUG << "Entering server connection listener loop";
@@ -720,6 +725,7 @@ static void mainServer(int argc, const char *argv[])
 						(void)close(listener.abandon());
 						exitRequested.closeInput(); // The server only detects an exit request once all copies have been closed
 						exitRequested.closeOutput();
+						activeSessions.closeOutput();
 						signal(SIGCHLD, SIG_DFL);
 
 						try { k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client)); }
@@ -757,13 +763,13 @@ static void mainServer(int argc, const char *argv[])
 #else
 			if (waitOnClientConnections && connectionCount)
 			{
-				int status;
+				std::string noData(1, '\0');
 
 				LOG_DEBUG << "Waiting for all connections to terminate";
-				signal(SIGCHLD, SIG_DFL);
+				activeSessions.closeInput();
 
-				while (wait(&status) >= 0 || errno != ECHILD)
-					; // Continue until all children have been reaped
+				while (activeSessions.read(noData))
+					; // Continue until all sessions have closed the pipe
 
 				LOG_DEBUG << "All connections terminated";
 			}
-- 
2.43.0


From 51a3509eb079100ed23e7d038104f36cf1d0b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 33/35] fix: load configurations that have no size (pipes), and
 name a directory given as one

---
 src/Utilities.cxx | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Utilities.cxx b/src/Utilities.cxx
index f354a9e..5549f95 100644
--- a/src/Utilities.cxx
+++ b/src/Utilities.cxx
@@ -662,15 +662,18 @@ k8psh::OptionalString k8psh::Utilities::readFile(const std::string &filename)
 	if (!file)
 		return OptionalString();
 
-	(void)std::fseek(file, 0, SEEK_END);
-	const long size = std::ftell(file);
-	(void)std::fseek(file, 0, SEEK_SET);
-	contents.resize(size);
-	std::size_t read = std::fread(&contents[0], 1, size, file);
+	// Not everything that can be read has a size (e.g. pipes)
+	char buffer[8192];
+	std::size_t read;
+
+	while ((read = std::fread(buffer, 1, sizeof(buffer), file)) > 0)
+		contents.append(buffer, read);
+
+	const bool failed = std::ferror(file) != 0;
 	(void)std::fclose(file);
 
-	if (read != std::size_t(size))
-		LOG_ERROR << "Failed to load complete file; loaded " << read << " / " << size << " bytes from " << filename;
+	if (failed)
+		LOG_ERROR << "Failed to load complete file; loaded " << contents.length() << " bytes from " << filename;
 
 	return contents;
 }
-- 
2.43.0


From a59e40c82070ed41f02ff92e4bad52c6e2a9e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 34/35] fix: name the port that is missing or too long

---
 src/Configuration.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index 4af76a5..1bc8ba4 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -279,7 +279,8 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 						LOG_ERROR << "Invalid port number \"" << port << '"';
 				}
 
-				currentPort = std::stoul(port);
+				try { currentPort = std::stoul(port); }
+				catch (const std::exception &e) { LOG_ERROR << "Failed to parse port (" << port << "): " << e.what(); }
 			}
 
 			if (currentPort >= 65536)
-- 
2.43.0


From 1d25d1efec6d52bffc90181a32fbb6e86e21312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 35/35] fix: Do not move all pending stdin data for each write

The time to pass on stdin grew with the square of the data that the process had
not read yet (12 minutes for one gigabyte, read at once).
---
 src/Process.cxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index caf208f..b8e193f 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -809,6 +809,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		// Process stdin, stdout, stderr
 		bool processHasExited = false;
 		std::string stdInData;
+		std::size_t stdInWritten = 0; // The start of stdInData that has already been written
 		bool closeStdIn = false;
 		std::string pipeData(DATA_BUFFER_SIZE, '\0');
 
@@ -987,12 +988,19 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			// Handle stdin data out-of-band, so we don't end up in a pipe-write deadlock
 			if (!stdInData.empty())
 			{
-				(void)stdInData.erase(0, stdInPipe.write(stdInData));
+				stdInWritten += stdInPipe.write(stdInData.substr(stdInWritten, DATA_BUFFER_SIZE));
+
+				// Only remove larger parts, since moving all of the remaining data for each write takes too long
+				if (stdInWritten >= stdInData.length() / 2)
+				{
+					(void)stdInData.erase(0, stdInWritten);
+					stdInWritten = 0;
+				}
 
 				// Check if the pipe has been closed
 				if (stdInPipe.getInput() == Pipe::INVALID_HANDLE)
 				{
-					LOG_DEBUG << "Process has closed stdin, lost " << stdInData.length() << " bytes";
+					LOG_DEBUG << "Process has closed stdin, lost " << stdInData.length() - stdInWritten << " bytes";
 					stdInData.clear();
 					sendSocket.write(STDIN_DATA, stdInData, std::size_t());
 				}
-- 
2.43.0

