From a8faa51cb232c8c7ef9720ec9826612a73892d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 01/29] fix: fs::mkdir_p reports ENOENT after creating the
 missing parents

---
 lib/fs.fu | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/fs.fu b/lib/fs.fu
index 3bf20e8..e24d92e 100644
--- a/lib/fs.fu
+++ b/lib/fs.fu
@@ -39,8 +39,7 @@ pub fn mkdir_p(mut path: string, mode = RWX_RWX_RWX): Errno
             {
                 pragma emit(`
 
-                    if (mkdir(`path`.data(), mode_t(`mode`)))
-                        `err` = errno;
+                    `err` = mkdir(`path`.data(), mode_t(`mode`)) ? errno : 0;
                 `);
             }
 
-- 
2.43.0


From ae75d190159ae78aeff2bae109b00e6ece729858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 02/29] fix: file::read overwrites the start of the buffer
 after a partial read

---
 lib/file.fu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/file.fu b/lib/file.fu
index 142f700..f62c8b2 100644
--- a/lib/file.fu
+++ b/lib/file.fu
@@ -193,6 +193,7 @@ fn read(mut path: string, ref into!output: string, mut size?: i64): Errno
                     break;
                 }
 
+                buf    += count;
                 `len0` += (decltype(`len0`)) count;
             }
         `);
-- 
2.43.0


From 7e42ba1ea93719ae0890c0b43a24d729e0298301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 03/29] fix: file::write reports success when a write makes no
 progress

---
 lib/file.fu | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/file.fu b/lib/file.fu
index f62c8b2..22d37aa 100644
--- a/lib/file.fu
+++ b/lib/file.fu
@@ -35,9 +35,7 @@ fn write(mut path: string, data: byte[..], mode = RW_RW_RW): Errno
             auto written = write(fd, buf, size);
             if (written <= 0)
             {
-                if (written < 0)
-                    `err` = errno;
-
+                `err` = written < 0 ? errno : EIO;
                 break;
             }
 
-- 
2.43.0


From 765d0770a641a5272424fca6b883f71d7e866a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 04/29] fix: signal::unblock loses the pthread_sigmask error

---
 lib/signal.fu | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/signal.fu b/lib/signal.fu
index 0f57cfe..aab0c98 100644
--- a/lib/signal.fu
+++ b/lib/signal.fu
@@ -128,7 +128,11 @@ pub fn unblock(sm: BlockedSigmask): Errno
     `);
 
     if (sm.signal_fd)
-        err = sm.signal_fd.close();
+    {
+        let close_err = sm.signal_fd.close();
+        if (!err)
+            err = close_err;
+    }
 
     return err;
 }
-- 
2.43.0


From a1001f8ed8f5cb498a3bdb82af9c2624d024304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 05/29] fix: fs::executable returns uninitialised bytes past
 the path

---
 lib/fs.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fs.fu b/lib/fs.fu
index e24d92e..be60e1e 100644
--- a/lib/fs.fu
+++ b/lib/fs.fu
@@ -127,7 +127,7 @@ pub fn executable(): string
             char buf[PATH_MAX];
             auto nbytes = readlink("/proc/self/exe", buf, PATH_MAX);
             if (nbytes > 0 && nbytes < PATH_MAX)
-                executable.UNSAFE__init_copy(buf, PATH_MAX);
+                executable.UNSAFE__init_copy(buf, fu::i(nbytes));
 
             /*
                 readlink("/proc/self/exe", buf, bufsize) (Linux)
-- 
2.43.0


From 55ae2e82474cf04694b5acdf2b4e0f531820d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 06/29] fix: spawn drops the error of waiting for the child

---
 lib/spawn.fu | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/spawn.fu b/lib/spawn.fu
index 5cc30cb..e3e02fd 100644
--- a/lib/spawn.fu
+++ b/lib/spawn.fu
@@ -480,8 +480,6 @@ pub fn spawn(
     if ((err = spawn(:child, :argv, stdout: cs, stderr: cs, blocking: false)))
         return err;
 
-    defer close(:child, :status);
-
     // Collect output.
     if (!passthrough) pragma input(
     `
@@ -567,5 +565,6 @@ pub fn spawn(
         }
     `);
 
-    return err;
+    let close_err = close(:child, :status);
+    return err || close_err;
 }
-- 
2.43.0


From e40cd27400f2ceb2ff31ee333075d0bec4df09d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 07/29] fix: spawn ignores posix_spawn_file_actions errors

---
 lib/spawn.fu | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/spawn.fu b/lib/spawn.fu
index e3e02fd..9b55ce5 100644
--- a/lib/spawn.fu
+++ b/lib/spawn.fu
@@ -197,35 +197,39 @@ pub fn spawn(
 
                 if (!`err`)
                 {
+                    const auto& Try = [&](int e) {
+                        if (!`err`) `err` = e;
+                    };
+
                     const auto& Pipe =
                         [&](const auto& pipe, int which)
                     {
                         if (pipe) {
                             if (which == STDIN_FILENO) {
                                 if (pipe.w)
-                                    posix_spawn_file_actions_addclose(&file_actions, pipe.w);
+                                    Try(posix_spawn_file_actions_addclose(&file_actions, pipe.w));
 
-                                posix_spawn_file_actions_adddup2 (&file_actions, pipe.r, STDIN_FILENO);
+                                Try(posix_spawn_file_actions_adddup2 (&file_actions, pipe.r, STDIN_FILENO));
 
                                 if (pipe.r != STDIN_FILENO)
-                                    posix_spawn_file_actions_addclose(&file_actions, pipe.r);
+                                    Try(posix_spawn_file_actions_addclose(&file_actions, pipe.r));
                             }
                             else {
                                 if (pipe.r)
-                                    posix_spawn_file_actions_addclose(&file_actions, pipe.r);
+                                    Try(posix_spawn_file_actions_addclose(&file_actions, pipe.r));
 
-                                posix_spawn_file_actions_adddup2 (&file_actions, pipe.w, which);
+                                Try(posix_spawn_file_actions_adddup2 (&file_actions, pipe.w, which));
 
                                 if (pipe.w != which)
-                                    posix_spawn_file_actions_addclose(&file_actions, pipe.w);
+                                    Try(posix_spawn_file_actions_addclose(&file_actions, pipe.w));
                             }
                         }
                         else {
-                            posix_spawn_file_actions_addopen(&file_actions, which,
+                            Try(posix_spawn_file_actions_addopen(&file_actions, which,
                                 "/dev/null", which == STDIN_FILENO
                                     ? O_RDONLY                  | O_CLOEXEC
                                     : O_WRONLY | O_APPEND       | O_CLOEXEC,
-                                0);
+                                0));
                         }
                     };
 
@@ -233,7 +237,7 @@ pub fn spawn(
                     Pipe(`stdout`, STDOUT_FILENO);
                     Pipe(`stderr`, STDERR_FILENO);
 
-                    `err` = posix_spawnp(&pid,
+                    if (!`err`) `err` = posix_spawnp(&pid,
                         argv_cstr[0],
                         &file_actions,
                         &attrs,
-- 
2.43.0


From 63374f7bee34d9d30f419b439fbc9454e7e4e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 08/29] fix: spawn closes ignored child streams instead of
 opening /dev/null

---
 lib/spawn.fu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/spawn.fu b/lib/spawn.fu
index 9b55ce5..0b385d1 100644
--- a/lib/spawn.fu
+++ b/lib/spawn.fu
@@ -227,8 +227,8 @@ pub fn spawn(
                         else {
                             Try(posix_spawn_file_actions_addopen(&file_actions, which,
                                 "/dev/null", which == STDIN_FILENO
-                                    ? O_RDONLY                  | O_CLOEXEC
-                                    : O_WRONLY | O_APPEND       | O_CLOEXEC,
+                                    ? O_RDONLY
+                                    : O_WRONLY | O_APPEND,
                                 0));
                         }
                     };
-- 
2.43.0


From ca156147d86dd4508b535142f733adcb3b29c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 09/29] fix: fs::readdir drops readdir and closedir errors

---
 lib/fs.fu | 92 +++++++++++++++++++++++++++++--------------------------
 1 file changed, 49 insertions(+), 43 deletions(-)

diff --git a/lib/fs.fu b/lib/fs.fu
index be60e1e..c0f0140 100644
--- a/lib/fs.fu
+++ b/lib/fs.fu
@@ -193,59 +193,65 @@ pub fn readdir(mut path: string, yield): Errno
     if (err)
         return err;
 
-    defer pragma emit(
-    `
-        if (!closedir(DIR_ptr))
-            `err` = errno;
-    `);
-
-    //
-    mut name_buf: string;
-
-    // Traverse.
-    for (;;)
+    // Block around the defer so its error is set before we return.
     {
-        mut done: bool;
-        pragma input(
+        defer pragma emit(
         `
-            dirent_ptr = readdir(DIR_ptr);
-            `done` = !dirent_ptr;
+            if (closedir(DIR_ptr) && !`err`)
+                `err` = errno;
         `);
 
-        if (done) break;
-
         //
-        mut type: DirentType;
-        mut name_data: u64;
-        mut name_size = 0;
+        mut name_buf: string;
 
-        pragma input(
-        `
-            `type`      = dirent_ptr->d_type;
-            `name_data` = (uintptr_t) dirent_ptr->d_name;
-            `name_size` = (fu::i)
-                #if defined(_D_EXACT_NAMLEN)
-                    _D_EXACT_NAMLEN(dirent_ptr)
-                #elif defined(_DIRENT_HAVE_D_NAMLEN)
-                    dirent_ptr->d_namlen
-                #else
-                    strlen(dirent_ptr->d_name)
-                #endif
-                    ;
-
-            (void) `type`;
-        `);
+        // Traverse.
+        for (;;)
+        {
+            mut done: bool;
+            pragma input(
+            `
+                errno = 0;
+                dirent_ptr = readdir(DIR_ptr);
+                `done` = !dirent_ptr;
+                if (`done`)
+                    `err` = errno;
+            `);
+
+            if (done) break;
 
-        //
-        const ref name = unsafe::cstr_view_or_copy(
-            name_buf, cstr: name_data, size: name_size);
+            //
+            mut type: DirentType;
+            mut name_data: u64;
+            mut name_size = 0;
+
+            pragma input(
+            `
+                `type`      = dirent_ptr->d_type;
+                `name_data` = (uintptr_t) dirent_ptr->d_name;
+                `name_size` = (fu::i)
+                    #if defined(_D_EXACT_NAMLEN)
+                        _D_EXACT_NAMLEN(dirent_ptr)
+                    #elif defined(_DIRENT_HAVE_D_NAMLEN)
+                        dirent_ptr->d_namlen
+                    #else
+                        strlen(dirent_ptr->d_name)
+                    #endif
+                        ;
+
+                (void) `type`;
+            `);
 
-        if (name == "." || name == "..")
-            continue;
+            //
+            const ref name = unsafe::cstr_view_or_copy(
+                name_buf, cstr: name_data, size: name_size);
+
+            if (name == "." || name == "..")
+                continue;
 
-        lax shadow let path = path[.. path.len - 1] ~ name;
+            lax shadow let path = path[.. path.len - 1] ~ name;
 
-        yield(?:name, ?:type, ?:path, recurse?: || readdir(path, fn yield));
+            yield(?:name, ?:type, ?:path, recurse?: || readdir(path, fn yield));
+        }
     }
 
     //
-- 
2.43.0


From 1e24fb7163fe59ea53c10a4559574141fc46ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 10/29] fix: ev::Loop::watch_files does not report that
 watching failed

---
 lib/ev/Loop.fu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/ev/Loop.fu b/lib/ev/Loop.fu
index a5a2b93..a542110 100644
--- a/lib/ev/Loop.fu
+++ b/lib/ev/Loop.fu
@@ -424,6 +424,7 @@ pub fn watch_files(
             dbg::ln(" EVLOOP watch_files epoll_ctl err(" err ")");
 
             watch_id.int.FD.close();
+            else(:err);
             return 0;
         }
 
-- 
2.43.0


From bcc7d4322ab65628f8416b31a39807c7a5842f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 11/29] fix: ev::Loop loses the error of a failed socket
 subscription

---
 lib/ev/Loop.fu | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/ev/Loop.fu b/lib/ev/Loop.fu
index a542110..e38a6a6 100644
--- a/lib/ev/Loop.fu
+++ b/lib/ev/Loop.fu
@@ -682,7 +682,6 @@ pub nothrow fn Loop(
 
                                 event_id        = socket_fd.int;
                                 user32          = socket_u32;
-                                event_ERR       = err;
 
                                 break :SocketOK/* event_id, user32, event_ERR */;
                             }
-- 
2.43.0


From fdd4447024fad578ef39c094d3cedc9d14049d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 12/29] fix: files opened by file::read and file::write leak
 into concurrently spawned children

---
 lib/file.fu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/file.fu b/lib/file.fu
index 22d37aa..9f3f719 100644
--- a/lib/file.fu
+++ b/lib/file.fu
@@ -23,7 +23,7 @@ fn write(mut path: string, data: byte[..], mode = RW_RW_RW): Errno
 
     pragma output(
     `
-        auto fd = open(`path`.data(), O_WRONLY | O_CREAT | O_TRUNC, mode_t(`mode`));
+        auto fd = open(`path`.data(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, mode_t(`mode`));
         if (fd == -1)
             return (`err` = errno);
 
@@ -139,7 +139,7 @@ fn read(mut path: string, ref into!output: string, mut size?: i64): Errno
         // Last chance for things to fail before we alloc.
         pragma emit(
         `
-            auto fd = open(`path`.data(), O_RDONLY);
+            auto fd = open(`path`.data(), O_RDONLY | O_CLOEXEC);
             if (fd == -1)
                 return (`err` = errno);
         `);
-- 
2.43.0


From 7a1c0bfb499afa87628ad2df1ad7b53673c48585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 13/29] fix: ev::Loop::ipv4_listen closes descriptor -1 when
 socket() fails

---
 lib/ev/Loop.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ev/Loop.fu b/lib/ev/Loop.fu
index e38a6a6..beb66d3 100644
--- a/lib/ev/Loop.fu
+++ b/lib/ev/Loop.fu
@@ -141,7 +141,7 @@ pub fn ipv4_listen(
 
     if (err)
     {
-        if (server_fd)
+        if (server_fd > 0)
             server_fd.close();
 
         (else(:err));
-- 
2.43.0


From aef942632783c07195e2b11a4620f16c9997d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 14/29] fix: object cache ignores --cflags, include directories
 and pkg-config libraries

---
 src/build.fu | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/build.fu b/src/build.fu
index abc21b5..f40d08e 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -730,6 +730,19 @@ pub fn build(
         //
         hash.hash(GCChash);
         //
+        //  including the ones provided by the user and requested by the module:
+        //
+        for (shadow mut i = 0; i < flags_cc.len; i++)
+            hash.hash(flags_cc[i]);
+
+        let include_dirs = unit.hacks.include_dirs.keys_asc;
+        for (shadow mut i = 0; i < include_dirs.len; i++)
+            hash.hash(include_dirs[i]);
+
+        let link = unit.hacks.link.keys_asc;
+        for (shadow mut i = 0; i < link.len; i++)
+            hash.hash(link[i]);
+        //
         // TODO FIX we should probably care about compiler version too,
         //  we could resolve it once on boot by gcc --version and hash its output.
 
-- 
2.43.0


From b195a0e890e9c62444a4588be4bb77d6d107afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 15/29] fix: bootstrap file::read overwrites the start of the
 buffer after a partial read

---
 lib/file.fu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/file.fu.cpp b/lib/file.fu.cpp
index fa49495..a3ea85f 100644
--- a/lib/file.fu.cpp
+++ b/lib/file.fu.cpp
@@ -114,6 +114,7 @@ int read_Zg7Moiy2(fu::str&& path, fu::str& output, int64_t size)
                 break;
             }
 
+            buf  += count;
             len0 += (decltype(len0)) count;
         };
     };
-- 
2.43.0


From 1a14a358a9eb9f7571da4e0f60804cbc0bc7480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 16/29] fix: bootstrap file::write reports success when a write
 makes no progress

---
 lib/file.fu.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/file.fu.cpp b/lib/file.fu.cpp
index a3ea85f..fe99ffa 100644
--- a/lib/file.fu.cpp
+++ b/lib/file.fu.cpp
@@ -39,9 +39,7 @@ int write_t5NVzxJy(fu::str&& path, fu::view<char> data, const unsigned mode)
         auto written = write(fd, buf, size);
         if (written <= 0)
         {
-            if (written < 0)
-                err = errno;
-
+            err = written < 0 ? errno : EIO;
             break;
         }
 
-- 
2.43.0


From 2386feb5dfba43f6dd31029eb2cc8cc0c4bc8f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 17/29] fix: bootstrap file::read and file::write leak
 descriptors into concurrently spawned children

---
 lib/file.fu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/file.fu.cpp b/lib/file.fu.cpp
index fe99ffa..08f0075 100644
--- a/lib/file.fu.cpp
+++ b/lib/file.fu.cpp
@@ -27,7 +27,7 @@ int write_t5NVzxJy(fu::str&& path, fu::view<char> data, const unsigned mode)
 {
     path += '\x00';
     int err {};
-    auto fd = open(path.data(), O_WRONLY | O_CREAT | O_TRUNC, mode_t(mode));
+    auto fd = open(path.data(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, mode_t(mode));
     if (fd == -1)
         return (err = errno);
 
@@ -81,7 +81,7 @@ int read_Zg7Moiy2(fu::str&& path, fu::str& output, int64_t size)
         if (len1 > (int64_t(MAX_5Mxm22OP()) - 16ll))
             return (err = EFBIG);
 ;
-        auto fd = open(path.data(), O_RDONLY);
+        auto fd = open(path.data(), O_RDONLY | O_CLOEXEC);
         if (fd == -1)
             return (err = errno);
 
-- 
2.43.0


From 87636618a5ffcc542f433d5920ad2293c3cb6003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 18/29] fix: bootstrap fs::mkdir_p reports ENOENT after
 creating the missing parents

---
 lib/fs.fu.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/fs.fu.cpp b/lib/fs.fu.cpp
index 06633b2..427e568 100644
--- a/lib/fs.fu.cpp
+++ b/lib/fs.fu.cpp
@@ -44,8 +44,7 @@ static int visit_DQYlPKj1(fu::view_mut<char> path, const unsigned mode)
                 if (visit_DQYlPKj1(parent, mode) == 0)
                 {
 
-                                        if (mkdir(path.data(), mode_t(mode)))
-                                            err = errno;
+                                        err = mkdir(path.data(), mode_t(mode)) ? errno : 0;
 
                 };
                 break;
-- 
2.43.0


From 6a2621794db3c68a95216bfa43419a7bc8a906ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 19/29] fix: bootstrap spawn ignores posix_spawn_file_actions
 errors

---
 lib/spawn.fu.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/spawn.fu.cpp b/lib/spawn.fu.cpp
index bb3e2e7..dad050b 100644
--- a/lib/spawn.fu.cpp
+++ b/lib/spawn.fu.cpp
@@ -39,7 +39,11 @@ static Errno fu_spawn(
 
     //
     posix_spawn_file_actions_t file_actions;
-    posix_spawn_file_actions_init(&file_actions);
+    err = posix_spawn_file_actions_init(&file_actions);
+    if (err)
+        return err;
+
+    const auto& Try         = [&](int e) { if (!err) err = e; };
 
     //
     const auto& Pipe        = [&](const PosixPipe* pipe, int STDOUT_or_STDERR)
@@ -49,14 +53,14 @@ static Errno fu_spawn(
             const int R     = 0;
             const int W     = 1;
 
-            posix_spawn_file_actions_addclose(&file_actions, (*pipe)[R]);
-            posix_spawn_file_actions_adddup2 (&file_actions, (*pipe)[W], STDOUT_or_STDERR);
-            posix_spawn_file_actions_addclose(&file_actions, (*pipe)[W]);
+            Try(posix_spawn_file_actions_addclose(&file_actions, (*pipe)[R]));
+            Try(posix_spawn_file_actions_adddup2 (&file_actions, (*pipe)[W], STDOUT_or_STDERR));
+            Try(posix_spawn_file_actions_addclose(&file_actions, (*pipe)[W]));
         }
         else
         {
-            posix_spawn_file_actions_addopen (&file_actions, STDOUT_or_STDERR,
-                "/dev/null", O_WRONLY|O_APPEND, 0);
+            Try(posix_spawn_file_actions_addopen (&file_actions, STDOUT_or_STDERR,
+                "/dev/null", O_WRONLY|O_APPEND, 0));
         }
     };
 
@@ -64,7 +68,7 @@ static Errno fu_spawn(
     Pipe(stderr, STDERR_FILENO);
 
     //
-    err =
+    if (!err) err =
         posix_spawnp(&pid,
             argv_cstr[0],
             &file_actions,
-- 
2.43.0


From 028a54b031ebd4befb9d4d749a5897002d8f47f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 20/29] fix: replacing a whole vector with a part of itself did
 nothing

splice_copy()/append_copy() treated 'replace everything with my own first
element onwards' as a no-op without comparing the sizes, so v.splice(0,
v.size(), view(v.data(), 2)) left v untouched.
---
 include/fu/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index caacbdb..ed8fa05 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -961,7 +961,7 @@ struct fu_VEC
             MUT_mid(idx, del, src_size);
             CPY_ctor_range(new_data + idx, src_data, src_size);
         }
-        else if (idx || del != old_size || src_data != old_data) {
+        else if (idx || del != old_size || src_data != old_data || src_size != old_size) {
             UNSAFE__self_splice(
                 idx, del, src_data, src_size);
         }
@@ -1022,7 +1022,7 @@ struct fu_VEC
             MUT_back(del, src_size);
             CPY_ctor_range(new_data + idx, src_data, src_size);
         }
-        else if (del != old_size || src_data != old_data) {
+        else if (del != old_size || src_data != old_data || src_size != old_size) {
             UNSAFE__self_splice(
                 idx, del, src_data, src_size);
         }
-- 
2.43.0


From 8f8684c0aa1da219198f49453cf018d8aafc4392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:38 +0000
Subject: [PATCH 21/29] fix: order writes after the last foreign share is
 dropped

A vector that finds itself the only owner of its block goes on to write
into it. The relaxed load did not synchronise with the release half of
another thread dropping its share, so those writes could be reordered
before, and race with, the other reader.
---
 include/fu/mem/arc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fu/mem/arc.h b/include/fu/mem/arc.h
index dcd15fa..577c8a3 100644
--- a/include/fu/mem/arc.h
+++ b/include/fu/mem/arc.h
@@ -56,7 +56,7 @@ struct alignas(16) fu_ARC
 
     fu_INL bool unique() const noexcept {
         return 0 == m_arc.load(
-            std::memory_order_relaxed );
+            std::memory_order_acquire );
     }
 };
 
-- 
2.43.0


From 5fcfa56ca6ca3cc9a1c29f62fa822728df7c816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:38 +0000
Subject: [PATCH 22/29] fix: acquire the stack head before following it in
 try_pop

try_pop dereferences the node it read from head before its
compare-exchange succeeds. With a relaxed load nothing orders that read
after the pushing thread set up the node.
---
 include/lockfree/stack.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lockfree/stack.hpp b/include/lockfree/stack.hpp
index 7706349..6de43fb 100644
--- a/include/lockfree/stack.hpp
+++ b/include/lockfree/stack.hpp
@@ -89,7 +89,7 @@ namespace lockfree
         char* try_pop()
         {
             u64 state0 = head.load(
-                std::memory_order_relaxed);
+                std::memory_order_acquire);
 
             Retry:
             {
@@ -104,7 +104,7 @@ namespace lockfree
                     if (!head.compare_exchange_weak(
                         state0, state1,
                             std::memory_order_acquire,
-                            std::memory_order_relaxed))
+                            std::memory_order_acquire))
                     {
                         goto Retry;
                     }
-- 
2.43.0


From b904df76372dbf71acc2f02cd540c62bb775fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:02 +0000
Subject: [PATCH 23/29] fix: exit instead of using a null block when malloc
 fails

---
 include/fu/mem/arc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fu/mem/arc.cpp b/include/fu/mem/arc.cpp
index ab0d7cf..900b4f8 100644
--- a/include/fu/mem/arc.cpp
+++ b/include/fu/mem/arc.cpp
@@ -41,6 +41,8 @@ static inline char* fu_POW2MEM_ALLOC(size_t& bytes) noexcept
     bytes = fu_POW2MEM_RoundUp(bytes);
 
     char* memory = (char*) std::malloc(bytes);
+    if (!memory)
+        std::exit(fu_EXIT_BadAlloc);
 
     #ifndef NDEBUG
     {
-- 
2.43.0


From 5921e34d20b6dba8fc1e1344c6c01ab507f1d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:02 +0000
Subject: [PATCH 24/29] fix: append to an in-place range replaced elements
 behind the range instead of its tail

---
 include/fu/vec_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fu/vec_range.h b/include/fu/vec_range.h
index 212c733..a2f04ae 100644
--- a/include/fu/vec_range.h
+++ b/include/fu/vec_range.h
@@ -180,7 +180,7 @@ struct vec_range_mut
             del = del > old_size ? old_size : del;
 
         m_vec->splice(
-            Left() + old_size, del,
+            Left() + (old_size - del), del,
             static_cast<fu::vec<T>&&>(src));
     }
 
@@ -205,7 +205,7 @@ struct vec_range_mut
             del = del > old_size ? old_size : del;
 
         m_vec->splice_copy(
-            Left() + old_size, del,
+            Left() + (old_size - del), del,
             src_data,
             src_size);
     }
-- 
2.43.0


From 0f0402993fff23e5401a637f1f91faf75beb3ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:55 +0000
Subject: [PATCH 25/29] fix: exec reported success when reading the output of a
 child failed

---
 lib/exec.fu     | 5 +++++
 lib/exec.fu.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/exec.fu b/lib/exec.fu
index 5bbb9fc..2c6c805 100644
--- a/lib/exec.fu
+++ b/lib/exec.fu
@@ -51,7 +51,12 @@ fn exec(mut cmd: string, ref status: spawn::ExitStatus, ref stdout: string): Err
 
                 auto count = fu::i(fread(data, 1, capa, pipe));
                 if (!count)
+                {
+                    if (ferror(pipe))
+                        `err` = `err` ? `err` : errno;
+
                     break;
+                }
 
                 size += count;
 
diff --git a/lib/exec.fu.cpp b/lib/exec.fu.cpp
index 6629daa..a2b8824 100644
--- a/lib/exec.fu.cpp
+++ b/lib/exec.fu.cpp
@@ -48,7 +48,12 @@ int exec_sounLutz(fu::str&& cmd, int& status, fu::str& stdout)
 
             auto count = fu::i(fread(data, 1, capa, pipe));
             if (!count)
+            {
+                if (ferror(pipe))
+                    err = err ? err : errno;
+
                 break;
+            }
 
             size += count;
 
-- 
2.43.0


From dde3adec45f7274b772c543733a4aca747c2745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:15 +0000
Subject: [PATCH 26/29] fix: == took views of one storage with different
 lengths for equal and compared too few bytes of wide elements

---
 include/fu/vec/LEGACY_cmp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fu/vec/LEGACY_cmp.h b/include/fu/vec/LEGACY_cmp.h
index e95ce31..c1fdeeb 100644
--- a/include/fu/vec/LEGACY_cmp.h
+++ b/include/fu/vec/LEGACY_cmp.h
@@ -22,10 +22,10 @@ inline bool operator==(const A& a, const B& b) noexcept
     const auto  s1 = b.size();
 
     bool diff  = (s0 != s1);
-    bool same  = (d0 == d1) | (!diff & !s0);
+    bool same  = !diff & ((d0 == d1) | !s0);
     bool cheap = (same | diff);
 
-    return cheap ? same : memcmp(d0, d1, size_t(s0)) == 0;
+    return cheap ? same : memcmp(d0, d1, size_t(s0) * sizeof(*d0)) == 0;
 }
 
 A_B_VECLIKE()
-- 
2.43.0


From 6a23264a4081cbfcfdb040ea6c4c321ad44a3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:31 +0000
Subject: [PATCH 27/29] fix: object cache names ignored --cflags, include dirs
 and pkg-config packages

---
 src/build.fu.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/build.fu.cpp b/src/build.fu.cpp
index 70ae927..c0facdd 100644
--- a/src/build.fu.cpp
+++ b/src/build.fu.cpp
@@ -1840,6 +1840,21 @@ void build_dvjTrKQM(fu::str&& dir_wrk, fu::view<char> fudir, /*MOV*/ fu::str&& f
             grow_if_oob_2Gj3HoxN(units, unit_mapping[i_2]) += cpp_1.src;
         };
     };
+    if (flags_cc)
+        GCChash += (" "_fu + join_zqpLPm5h(flags_cc, ' '));
+
+    for (int i_10 = 0; i_10 < modules_1.size(); i_10++)
+    {
+        const s_Module& module_3 = GET_O38yHq8T(modules_1[i_10], modules);
+        fu::view<fu::str> include_dirs_1 = module_3.out.cpp.include_dirs;
+        fu::view<fu::str> libs_1 = module_3.out.cpp.link;
+        if (include_dirs_1)
+            GCChash += (((" -I "_fu + module_3.fname) + " "_fu) + join_zqpLPm5h(include_dirs_1, ' '));
+
+        if (libs_1)
+            GCChash += (((" -l "_fu + module_3.fname) + " "_fu) + join_zqpLPm5h(libs_1, ' '));
+
+    };
     fu::vec<fu::str> Fs {};
     int len_all {};
     for (int i_3 = 0; i_3 < units.size(); i_3++)
-- 
2.43.0


From db1a51f08fbce5fa7648284288d6c0015c29b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:31 +0000
Subject: [PATCH 28/29] fix: f64dec cut the text of large numbers at 64 bytes
 and appended a zero byte

---
 include/fu/decstr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fu/decstr.cpp b/include/fu/decstr.cpp
index fbc31b8..e983563 100644
--- a/include/fu/decstr.cpp
+++ b/include/fu/decstr.cpp
@@ -39,13 +39,13 @@ fu_EXPORT fu::str fu::i64dec(int64_t num)
 
 fu_EXPORT fu::str fu::f64dec(double num)
 {
-    char buffer[64];
-    int len = snprintf(buffer, 64, "%f", num);
+    char buffer[512];
+    int len = snprintf(buffer, sizeof buffer, "%f", num);
 
     fu::str res;
     res.UNSAFE__init_copy(
         buffer,
-        len > 0 ? len < 64 ? len : 64 : 0);
+        len > 0 ? len : 0);
 
     return res;
 }
-- 
2.43.0


From d28529dea303b47079b0ca8ba16433f82bfed799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:53 +0000
Subject: [PATCH 29/29] fix: a cached run status was moved to the requested
 executable

---
 src/build.fu.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/build.fu.cpp b/src/build.fu.cpp
index c0facdd..ec73b95 100644
--- a/src/build.fu.cpp
+++ b/src/build.fu.cpp
@@ -1904,7 +1904,10 @@ void build_dvjTrKQM(fu::str&& dir_wrk, fu::view<char> fudir, /*MOV*/ fu::str&& f
     fu::str INCLUDE = (((((flags_cc ? (" "_fu + join_zqpLPm5h(flags_cc, ' ')) : fu::str{}) + " -I "_fu) + fudir) + "include"_fu) + (HACK_include_dirs ? (" -I "_fu + join_jCe9HYtv(HACK_include_dirs, " -I "_fu)) : fu::str{}));
     fu::str LIBS = (((flags_ld ? (" "_fu + join_zqpLPm5h(flags_ld, ' ')) : fu::str{}) + (HACK_linkFlags ? (" "_fu + join_jCe9HYtv(HACK_linkFlags, " "_fu)) : fu::str{})) + (HACK_pkgConfig_libs ? ((" $(pkg-config --libs "_fu + join_jCe9HYtv(HACK_pkgConfig_libs, " "_fu)) + ")"_fu) : fu::str{}));
     /*MOV*/ fu::str F_exe = x7E_gCeFmDFw((x7E_gCeFmDFw((((dir_wrk + "b-"_fu) + hash16_nHEuzL2I((join_jCe9HYtv(Fs, "/"_fu) + LIBS), 16)) + "-"_fu), fu::i64dec(len_all)) + "-"_fu), fu::i64dec(Fs.size()));
-    const int64_t old_size = size_zTt3fZzW(fu::str(F_exe));
+    int64_t old_size = size_zTt3fZzW(fu::str(F_exe));
+    if (bin && (old_size == 4ll || old_size == 20ll))
+        old_size = 0ll;
+
     if ((old_size < 1ll) && (bin || run))
     {
         fu::vec<s_BuildError> buildErrors = map_yEDQqPbl(Fs, 0, nocache, GCC_CMD, modules, modules_1, units, HACK_pkgConfig_cflags, INCLUDE);
@@ -1973,7 +1976,7 @@ void build_dvjTrKQM(fu::str&& dir_wrk, fu::view<char> fudir, /*MOV*/ fu::str&& f
             const int64_t new_size = size_zTt3fZzW(fu::str(F_exe));
             if (new_size == 4ll || new_size == 20ll)
                 code = READ_StatusCode_J2ezsHRV(F_exe);
-            else if ((code != 32512) && (code != 35584))
+            else if (!bin && (code != 32512) && (code != 35584))
                 WRITE_StatusCode_rhOPS2bA(code, F_exe);
 
         };
-- 
2.43.0

