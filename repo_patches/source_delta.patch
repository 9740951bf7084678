From 97847cef4870684528f18ac51ebe02ff28394e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 01/31] fix: a std::bad_cast thrown by a command handler is not
 a wrong command

---
 include/cli/cli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 437e838..e4b244d 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -781,13 +781,15 @@ namespace cli
             if (cmdLine.size() != paramSize+1) return false;
             if (Name() == cmdLine[0])
             {
+                bool called = false;
                 try
                 {
-                    auto g = [&](auto ... pars){ func( session.OutStream(), pars... ); };
+                    auto g = [&](auto ... pars){ called = true; func( session.OutStream(), pars... ); };
                     Select<Args...>::Exec(g, std::next(cmdLine.begin()), cmdLine.end());
                 }
                 catch (std::bad_cast&)
                 {
+                    if (called) throw; // thrown by the handler, not by the conversion of the parameters
                     return false;
                 }
                 return true;
-- 
2.43.0


From 3c30a1bcc16e5c227a9b8e923e72c581761947ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 02/31] fix: keep a command alive while its handler removes it

---
 include/cli/cli.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index e4b244d..9b3aff2 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -510,7 +510,7 @@ namespace cli
         {
             if (!IsEnabled())
                 return false;
-            for (auto& cmd: *cmds)
+            for (auto cmd: *cmds) // by value: the handler can remove its own command
                 if (cmd->Exec(cmdLine, session))
                     return true;
             assert(!cmdLine.empty());
@@ -669,7 +669,7 @@ namespace cli
                 {
                     // check also for subcommands
                     std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());
-                    for (auto& cmd: *cmds)
+                    for (auto cmd: *cmds) // by value: the handler can remove its own command
                         if (cmd->Exec( subCmdLine, session )) return true;
                     return (parent && parent->ExecParent(subCmdLine, session));
                 }
-- 
2.43.0


From 4376d29007b44f4ba6328c68167b2c977d81df18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 03/31] fix: a session whose current menu is removed continues
 from the root menu

---
 include/cli/cli.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 9b3aff2..56e3c97 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -321,7 +321,7 @@ namespace cli
 
         void Prompt();
 
-        void Current(Menu* menu) { current = menu; }
+        void Current(Menu* menu);
 
         std::ostream& OutStream() { return out; }
 
@@ -379,9 +379,13 @@ namespace cli
 
     private:
 
+        // the current menu, or the root menu if the current menu has been removed
+        Menu* Current() const;
+
         Cli& cli;
         std::shared_ptr<cli::OutStream> coutPtr;
         Menu* current;
+        std::weak_ptr<void> currentLifetime; // expires when the current menu is destroyed
         std::unique_ptr<Menu> globalScopeMenu;
         std::ostream& out;
         std::function< void(std::ostream&)> enterAction = []( std::ostream& ) noexcept {};
@@ -445,6 +449,7 @@ namespace cli
 
     class Menu : public Command
     {
+        friend class CliSession;
     public:
         // disable value and move semantics
         Menu(const Menu&) = delete;
@@ -882,6 +887,7 @@ namespace cli
             cli(_cli),
             coutPtr(Cli::CoutPtr()),
             current(cli.RootMenu()),
+            currentLifetime(current->cmds),
             globalScopeMenu(std::make_unique< Menu >()),
             out(_out),
             history(historySize)
@@ -911,6 +917,17 @@ namespace cli
             );
         }
 
+    inline void CliSession::Current(Menu* menu)
+    {
+        current = menu;
+        currentLifetime = menu->cmds;
+    }
+
+    inline Menu* CliSession::Current() const
+    {
+        return currentLifetime.expired() ? cli.RootMenu() : current;
+    }
+
     inline void CliSession::Feed(const std::string& cmd)
     {
         std::vector<std::string> strs;
@@ -925,7 +942,7 @@ namespace cli
             bool found = globalScopeMenu->ScanCmds(strs, *this);
 
             // root menu recursive cmds check
-            if (!found) found = current->ScanCmds(strs, *this);
+            if (!found) found = Current()->ScanCmds(strs, *this);
 
             if (!found) // wrong command handler if not found
                 cli.WrongCommandHandler(out, cmd);
@@ -946,7 +963,7 @@ namespace cli
     {
         if (exit) return;
         out << beforePrompt
-            << current->Prompt()
+            << Current()->Prompt()
             << afterPrompt
             << "> "
             << std::flush;
@@ -956,7 +973,7 @@ namespace cli
     {
         out << "Commands available:\n";
         globalScopeMenu->MainHelp(out);
-        current -> MainHelp( out );
+        Current() -> MainHelp( out );
     }
 
     inline std::vector<std::string> CliSession::GetCompletions(std::string currentLine) const
@@ -964,7 +981,7 @@ namespace cli
         // trim_left(currentLine);
         currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](int ch) { return !std::isspace(ch); }));
         auto v1 = globalScopeMenu->GetCompletions(currentLine);
-        auto v3 = current->GetCompletions(currentLine);
+        auto v3 = Current()->GetCompletions(currentLine);
         v1.insert(v1.end(), std::make_move_iterator(v3.begin()), std::make_move_iterator(v3.end()));
 
         // removes duplicates (std::unique requires a sorted container)
-- 
2.43.0


From d75863a08bb772ae1b2519c9bb000e84901e106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 04/31] fix: a disabled menu offers no completions

---
 include/cli/cli.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 56e3c97..fd5879d 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -548,6 +548,7 @@ namespace cli
         // - the recursive completions of parent menu
         std::vector<std::string> GetCompletions(const std::string& currentLine) const
         {
+            if (!IsEnabled()) return {};
             auto result = cli::GetCompletions(cmds, currentLine);
             if (parent != nullptr)
             {
@@ -574,6 +575,7 @@ namespace cli
          */
         std::vector<std::string> GetCompletionRecursive(const std::string& line) const override
         {
+            if (!IsEnabled()) return {};
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
@@ -598,6 +600,7 @@ namespace cli
          */
         std::vector<std::string> GetCompletionWithParent(const std::string& line) const
         {
+            if (!IsEnabled()) return {};
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
-- 
2.43.0


From d6bbb9170fea567bcc8008aff3fe5e8485ee8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 05/31] fix: a history of size zero can be browsed and searched

---
 include/cli/detail/history.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index e8eb401..928fbb7 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -79,6 +79,8 @@ public:
     // Otherwise, the line overwrites the current item.
     std::string Previous(const std::string& line)
     {
+        if (maxSize == 0) // nothing to browse
+            return line;
         if (mode == Mode::inserting)
         {
             Insert(line);
@@ -155,8 +157,8 @@ public:
 
     void ForgetLatest()
     {
-        assert(!buffer.empty());
-        buffer.pop_front();
+        if (!buffer.empty())
+            buffer.pop_front();
     }
 
 private:
-- 
2.43.0


From aea2b949b96c5acfd2b451ea97fe940e62aced0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 06/31] fix: no id is found in an empty history

---
 include/cli/detail/history.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 928fbb7..d93f4c6 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -167,14 +167,14 @@ private:
     // newest has index = 0      and id = idOfOldest + size-1 
     std::size_t IndexToId(std::size_t index) const
     {
-        if (index > idOfOldest+buffer.size()-1)
+        if (index >= buffer.size())
             throw std::out_of_range("Index not found in history");
         return idOfOldest + buffer.size() - 1 - index;
     }
 
     std::size_t IdToIndex(std::size_t id) const
     {
-        if (id < idOfOldest || id > idOfOldest+buffer.size()-1)
+        if (id < idOfOldest || id >= idOfOldest+buffer.size())
             throw std::out_of_range("Index not found in history");
         return idOfOldest + buffer.size() - 1 - id;
     }
-- 
2.43.0


From 602776273a415d8a0a3f5ff21499bf19999ffa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 07/31] fix: only the commands added to the history are stored
 at exit

---
 include/cli/detail/history.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index d93f4c6..b405974 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -54,13 +54,16 @@ public:
     // Otherwise, the item is added to the front of the container
     void NewCommand(const std::string& item)
     {
-        ++commands;
         current = 0;
+        recorded = true;
         if (mode == Mode::browsing)
         {
             assert(!buffer.empty());
             if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
+            {
                 buffer.pop_front();
+                recorded = false;
+            }
             else // the item was not identical
                 buffer[current] = item;
         }
@@ -68,7 +71,11 @@ public:
         {
             if (buffer.empty() || buffer[0] != item) // insert an element not equal to last one
                 Insert(item);
+            else
+                recorded = false;
         }
+        if (recorded)
+            ++commands;
         mode = Mode::inserting;
     }
 
@@ -155,8 +162,13 @@ public:
         return buffer[index];
     }
 
+    // Undo the latest NewCommand
     void ForgetLatest()
     {
+        if (!recorded) // the command was already the latest one
+            return;
+        recorded = false;
+        --commands;
         if (!buffer.empty())
             buffer.pop_front();
     }
@@ -192,7 +204,8 @@ private:
     const std::size_t maxSize;
     std::deque<std::string> buffer; // buffer[0] is the newest element
     std::size_t current = 0;
-    std::size_t commands = 0; // number of commands issued
+    std::size_t commands = 0; // number of commands added to the history by NewCommand
+    bool recorded = false; // true if the latest command has been added to the history
     enum class Mode { inserting, browsing };
     Mode mode = Mode::inserting;
     std::size_t idOfOldest = 0; // the id of the oldest element kept in the history
-- 
2.43.0


From ac0eca11618aba5edba0760c4da05c1fe61d2b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 08/31] fix: a '!' line never evicts the oldest command of a
 full history

---
 include/cli/detail/history.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index b405974..7337494 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -61,7 +61,7 @@ public:
             assert(!buffer.empty());
             if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
             {
-                buffer.pop_front();
+                RemoveLatest();
                 recorded = false;
             }
             else // the item was not identical
@@ -169,12 +169,25 @@ public:
             return;
         recorded = false;
         --commands;
-        if (!buffer.empty())
-            buffer.pop_front();
+        RemoveLatest();
     }
 
 private:
 
+    // Remove the latest element, taking back the one it had evicted
+    void RemoveLatest()
+    {
+        if (!buffer.empty())
+            buffer.pop_front();
+        if (!evicted.empty())
+        {
+            if (maxSize > 0)
+                buffer.push_back(evicted.front());
+            evicted.clear();
+            --idOfOldest;
+        }
+    }
+
     // oldest has index = size-1 and id = idOfOldest
     // newest has index = 0      and id = idOfOldest + size-1 
     std::size_t IndexToId(std::size_t index) const
@@ -194,8 +207,10 @@ private:
     void Insert(const std::string& item)
     {
         buffer.emplace_front(item);
+        evicted.clear();
         if (buffer.size() > maxSize)
         {
+            evicted.push_back(buffer.back());
             buffer.pop_back();
             ++idOfOldest;
         }
@@ -208,6 +223,7 @@ private:
     bool recorded = false; // true if the latest command has been added to the history
     enum class Mode { inserting, browsing };
     Mode mode = Mode::inserting;
+    std::vector<std::string> evicted; // the element evicted by the latest one, if any
     std::size_t idOfOldest = 0; // the id of the oldest element kept in the history
 };
 
-- 
2.43.0


From d685546612138f2b936b42faae76d62048703bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 09/31] fix: a history entry referring to itself is an error,
 not an endless recursion

---
 include/cli/cli.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index fd5879d..377b57d 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -362,6 +362,15 @@ namespace cli
         {
             history.ForgetLatest();
             const auto cmd = history.At(index);
+            // the command found can be a reference to the history, too
+            if (std::find(pendingIds.begin(), pendingIds.end(), index) != pendingIds.end())
+                throw std::runtime_error("Recursive reference in history");
+            struct Pending
+            {
+                Pending(std::vector<unsigned>& v, unsigned id) : ids(v) { ids.push_back(id); }
+                ~Pending() { ids.pop_back(); }
+                std::vector<unsigned>& ids;
+            } pending(pendingIds, index);
             Feed(cmd);
         }
 
@@ -391,6 +400,7 @@ namespace cli
         std::function< void(std::ostream&)> enterAction = []( std::ostream& ) noexcept {};
         std::function< void(std::ostream&)> exitAction = []( std::ostream& ) noexcept {};
         detail::History history;
+        std::vector<unsigned> pendingIds; // history entries being executed
         bool exit{ false }; // to prevent the prompt after exit command
     };
 
-- 
2.43.0


From 22170aa1fc100881ec70a68102309e49688dfcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 10/31] fix: a session exits once and executes nothing
 afterwards

---
 include/cli/cli.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 377b57d..9b31e55 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -34,6 +34,7 @@
 #include <vector>
 #include <memory>
 #include <functional>
+#include <stdexcept>
 #include <algorithm>
 #include <cctype> // std::isspace
 #include <type_traits>
@@ -337,6 +338,8 @@ namespace cli
 
         void Exit()
         {
+            if (exit) return; // already exited
+
             exitAction(out);
             cli.ExitAction(out);
 
@@ -943,6 +946,8 @@ namespace cli
 
     inline void CliSession::Feed(const std::string& cmd)
     {
+        if (exit) return; // no command is executed after exit
+
         std::vector<std::string> strs;
         detail::split(strs, cmd);
         if (strs.empty()) return; // just hit enter
-- 
2.43.0


From 2b8522e56faac26daa8e130e69fe1183abb4351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 11/31] fix: a file session having its own exit action
 terminates

---
 include/cli/cli.h            |  4 ++++
 include/cli/clifilesession.h | 10 +---------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 9b31e55..6154ab8 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -389,6 +389,10 @@ namespace cli
 
         std::vector<std::string> GetCompletions(std::string currentLine) const;
 
+    protected:
+
+        bool Exited() const { return exit; }
+
     private:
 
         // the current menu, or the root menu if the current menu has been removed
diff --git a/include/cli/clifilesession.h b/include/cli/clifilesession.h
index 68177e5..2590cb2 100644
--- a/include/cli/clifilesession.h
+++ b/include/cli/clifilesession.h
@@ -44,23 +44,16 @@ public:
     /// @throw std::invalid_argument if @c _in or @c out are invalid streams
     explicit CliFileSession(Cli& _cli, std::istream& _in=std::cin, std::ostream& _out=std::cout) :
         CliSession(_cli, _out, 1),
-        exit(false),
         in(_in)
     {
         if (!_in.good()) throw std::invalid_argument("istream invalid");
         if (!_out.good()) throw std::invalid_argument("ostream invalid");
-        ExitAction(
-            [this](std::ostream&) noexcept
-            {
-                exit = true;
-            }
-        );
     }
     void Start()
     {
         Enter();
 
-        while(!exit)
+        while(!Exited())
         {
             Prompt();
             std::string line;
@@ -75,7 +68,6 @@ public:
     }
 
 private:
-    bool exit;
     std::istream& in;
 };
 
-- 
2.43.0


From a182a12d56bec60e8e3e152eeb6b9711b5edd7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 12/31] fix: a telnet session exits also when the server has no
 exit action

---
 include/cli/detail/genericasioremotecli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index f8f7760..220297c 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -457,7 +457,7 @@ public:
         CliSession(_cli, TelnetSession::OutStream(), historySize),
         poll(*this, *this)
     {
-        ExitAction([this, _exitAction](std::ostream& _out){ _exitAction(_out), Disconnect(); } );
+        ExitAction([this, _exitAction](std::ostream& _out){ if (_exitAction) _exitAction(_out); Disconnect(); } );
     }
 protected:
 
-- 
2.43.0


From a816b6347c2e45237ad71dc66333ed51ee236557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 13/31] fix: the enter action of a telnet server is invoked

---
 include/cli/detail/genericasioremotecli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 220297c..26e851e 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -575,7 +575,9 @@ public:
     }
     std::shared_ptr<Session> CreateSession(asiolib::ip::tcp::socket _socket) override
     {
-        return std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        auto session = std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        session->CliSession::EnterAction(enterAction);
+        return session;
     }
 private:
     Scheduler& scheduler;
-- 
2.43.0


From 0553fb2c3b7097f9209fe80b223d4bdda04b2425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 14/31] fix: disconnecting a session whose connection is broken
 does not throw

---
 include/cli/detail/server.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 8013057..a8d3d75 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -54,8 +54,10 @@ protected:
 
     virtual void Disconnect()
     {
-        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both);
-        socket.close();
+        // the connection could be already closed by the client
+        asiolibec::error_code ec;
+        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both, ec);
+        socket.close(ec);
     }
 
     virtual void Read()
-- 
2.43.0


From 10f3c4040b6a6cfe176471ea1f768814ef07ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 15/31] fix: destroying a session does not silence the others
 using the same stream

---
 include/cli/cli.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 6154ab8..bc50c34 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -101,7 +101,10 @@ namespace cli
         }
         void UnRegister(std::ostream& o)
         {
-            ostreams.erase(std::remove(ostreams.begin(), ostreams.end(), &o), ostreams.end());
+            // the same stream can be registered by other sessions
+            auto i = std::find(ostreams.begin(), ostreams.end(), &o);
+            if (i != ostreams.end())
+                ostreams.erase(i);
         }
 
     private:
-- 
2.43.0


From a51c363304dca2bb30c0eb02e9774d056fd0f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 16/31] fix: the enter actions are invoked also for async
 sessions

---
 include/cli/detail/genericcliasyncsession.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 2712276..aea4d4c 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -47,6 +47,7 @@ public:
         CliSession(_cli, std::cout, 1),
         input(_scheduler.AsioContext(), ::dup(STDIN_FILENO))
     {
+        Enter();
         Read();
     }
     ~GenericCliAsyncSession() noexcept override
-- 
2.43.0


From 33cb9c79565edae657c5f1c97be5076dc2443750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 17/31] fix: an unknown key is ignored and is not taken for a
 canc or a character

---
 include/cli/detail/genericasioremotecli.h | 12 ++++++++++--
 include/cli/detail/linuxkeyboard.h        |  4 +++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 26e851e..660cf5c 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -517,7 +517,8 @@ protected:
                     case 67: step = Step::_1; Notify(std::make_pair(KeyType::right,' ')); break;
                     case 70: step = Step::_1; Notify(std::make_pair(KeyType::end,' ')); break;
                     case 72: step = Step::_1; Notify(std::make_pair(KeyType::home,' ')); break;
-                    default: step = Step::_4; break;  // not arrow keys
+                    case 51: step = Step::_4; break;  // maybe canc
+                    default: step = Step::_5; break;  // unknown
                 }
                 break;
 
@@ -529,6 +530,13 @@ protected:
 
                 break;
 
+            case Step::_5: // last character of an unknown sequence
+                Notify(std::make_pair(KeyType::ignored,' '));
+
+                step = Step::_1;
+
+                break;
+
             case Step::wait_0:
                 if ( c == 0 /* linux */ || c == 10 /* win */ ) Notify(std::make_pair(KeyType::ret,' '));
                 else Notify(std::make_pair(KeyType::ignored,' '));
@@ -542,7 +550,7 @@ protected:
 
 private:
 
-    enum class Step { _1, _2, _3, _4, wait_0 };
+    enum class Step { _1, _2, _3, _4, _5, wait_0 };
     Step step = Step::_1;
     CommandProcessor<TelnetScreen> poll;
 };
diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 17b40e1..7bd9a15 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -201,7 +201,9 @@ public:
                         case 67: return std::make_pair(KeyType::right,' ');
                         case 70: return std::make_pair(KeyType::end,' ');
                         case 72: return std::make_pair(KeyType::home,' ');
-                        default: return std::make_pair(KeyType::ignored,' ');
+                        default:
+                            GetChar(); // last character of an unknown sequence
+                            return std::make_pair(KeyType::ignored,' ');
                     }
                 }
                 break;
-- 
2.43.0


From 36701968cc782e5f25d3577d170e4bf077873e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 18/31] fix: telnet answers about the option 10 are not
 corrupted by an extra CR

---
 include/cli/detail/genericasioremotecli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 660cf5c..10ff1f3 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -405,7 +405,7 @@ private:
         std::string answer("\x0FF\x000\x000", 3);
         answer[1] = action;
         answer[2] = op;
-        this -> OutStream() << answer << std::flush;
+        this -> Send(answer); // not encoded
     }
 protected:
     virtual void Output(char c)
-- 
2.43.0


From 3f4949bf6f22217542d4b48bdb6a0a444e9cb1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 19/31] fix: keys already queued for a destroyed session are
 dropped

---
 include/cli/detail/inputdevice.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/inputdevice.h b/include/cli/detail/inputdevice.h
index 62a369f..d387016 100644
--- a/include/cli/detail/inputdevice.h
+++ b/include/cli/detail/inputdevice.h
@@ -31,6 +31,7 @@
 #define CLI_DETAIL_INPUTDEVICE_H_
 
 #include <functional>
+#include <memory>
 #include <string>
 #include "../scheduler.h"
 
@@ -52,19 +53,21 @@ public:
     virtual void DeactivateInput() {}
 
     template <typename H>
-    void Register(H&& h) { handler = std::forward<H>(h); }
+    void Register(H&& h) { *handler = std::forward<H>(h); }
 
 protected:
 
     void Notify(std::pair<KeyType,char> k)
     {
-        scheduler.Post([this,k](){ if (handler) handler(k); });
+        // the device could be destroyed before the scheduler runs the function
+        std::weak_ptr<Handler> weakHandler = handler;
+        scheduler.Post([weakHandler,k](){ if (auto h = weakHandler.lock()) if (*h) (*h)(k); });
     }
 
 private:
 
     Scheduler& scheduler;
-    Handler handler;
+    const std::shared_ptr<Handler> handler = std::make_shared<Handler>();
 };
 
 } // namespace detail
-- 
2.43.0


From c252117bad4b5f49b64c37294d0553fca9d95336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 20/31] fix: a telnet server can be destroyed while its context
 goes on running

---
 include/cli/detail/server.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index a8d3d75..0860040 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -142,13 +142,16 @@ public:
 private:
     void Accept()
     {
-        acceptor.async_accept([this](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
+        std::weak_ptr<void> weakLifetime = lifetime;
+        acceptor.async_accept([this, weakLifetime](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
             {
+                if (weakLifetime.expired()) return; // the server has been destroyed
                 if (!ec) CreateSession(std::move(socket))->Start();
                 Accept();
             });
     }
     asiolib::ip::tcp::acceptor acceptor;
+    std::shared_ptr<void> lifetime = std::make_shared<char>();
 };
 
 
-- 
2.43.0


From 9d2fa62564067d9da5822d042ecd032519a2cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 21/31] fix: an async session can be destroyed while its
 context goes on running

---
 include/cli/detail/genericcliasyncsession.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index aea4d4c..295d432 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -30,6 +30,7 @@
 #ifndef CLI_DETAIL_GENERICCLIASYNCSESSION_H_
 #define CLI_DETAIL_GENERICCLIASYNCSESSION_H_
 
+#include <memory>
 #include <string>
 #include "../cli.h" // CliSession
 #include "genericasioscheduler.h"
@@ -61,13 +62,17 @@ private:
     {
         Prompt();
         // Read a line of input entered by the user.
+        // The buffer is used by the operation until it completes, even if the session is destroyed
+        auto buffer = inputBuffer;
+        std::weak_ptr<void> weakLifetime = lifetime;
         asiolib::async_read_until(
             input,
-            inputBuffer,
+            *buffer,
             '\n',
-            std::bind( &GenericCliAsyncSession::NewLine, this,
-                       std::placeholders::_1,
-                       std::placeholders::_2 )
+            [this, buffer, weakLifetime](const asiolibec::error_code& error, std::size_t length)
+            {
+                if (!weakLifetime.expired()) NewLine(error, length);
+            }
         );
     }
 
@@ -75,11 +80,11 @@ private:
     {
         if ( !error || error == asiolib::error::not_found )
         {
-            auto bufs = inputBuffer.data();
+            auto bufs = inputBuffer->data();
             auto size = static_cast<long>(length);
             if ( !error ) --size; // remove \n
             std::string s(asiolib::buffers_begin( bufs ), asiolib::buffers_begin( bufs ) + size);
-            inputBuffer.consume( length );
+            inputBuffer->consume( length );
 
             Feed( s );
             Read();
@@ -90,7 +95,8 @@ private:
         }
     }
 
-    asiolib::streambuf inputBuffer;
+    const std::shared_ptr<asiolib::streambuf> inputBuffer = std::make_shared<asiolib::streambuf>();
+    const std::shared_ptr<void> lifetime = std::make_shared<char>();
     asiolib::posix::stream_descriptor input;
 };
 
-- 
2.43.0


From 2d296ed1052178b40ae601d20b15f1b29119a0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 22/31] fix: a signal does not stop the keyboard of a local
 session

---
 include/cli/detail/linuxkeyboard.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 7bd9a15..3c9b61c 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -34,6 +34,7 @@
 #include <memory>
 #include <stdexcept>
 
+#include <cerrno>
 #include <cstdio>
 #include <termios.h>
 #include <unistd.h>
@@ -62,20 +63,30 @@ public:
         }
     }
 
+    ~InputSource()
+    {
+        close(readPipe);
+    }
+
     void WaitKbHit()
     {
         fd_set rfds;
-        FD_ZERO(&rfds);
-        FD_SET(STDIN_FILENO, &rfds);
-        FD_SET(readPipe, &rfds);
+        int ready = 0;
+
+        do
+        {
+            FD_ZERO(&rfds);
+            FD_SET(STDIN_FILENO, &rfds);
+            FD_SET(readPipe, &rfds);
+            ready = select(readPipe + 1, &rfds, nullptr, nullptr, nullptr);
+        }
+        while (ready == 0 || (ready < 0 && errno == EINTR)); // nothing to read or interrupted by a signal
 
-        while (select(readPipe + 1, &rfds, nullptr, nullptr, nullptr) == 0);
+        if (ready < 0)
+            throw std::runtime_error("InputSource error");
 
         if (FD_ISSET(readPipe, &rfds)) // stop called
-        {
-            close(readPipe);
             throw std::runtime_error("InputSource stop");
-        }
 
         if (FD_ISSET(STDIN_FILENO, &rfds)) // char from stdinput
         {
-- 
2.43.0


From cadb9ee2ea523fae87b25ce14f8d9b91a5cd781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 23/31] fix: the end of input ends a local session once instead
 of flooding it with null characters

---
 include/cli/detail/linuxkeyboard.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 3c9b61c..6d4b83c 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -162,6 +162,7 @@ public:
                 }
                 auto k = Get();
                 Notify(k);
+                if (endOfInput) return;
             }
         }
         catch(const std::exception&)
@@ -173,8 +174,17 @@ public:
     char GetChar()
     {
         char buffer = 0;
-        auto unused = read(0, &buffer, 1);
-        static_cast<void>(unused); // silence unused warn
+        ssize_t n = 0;
+        do
+        {
+            n = read(STDIN_FILENO, &buffer, 1);
+        }
+        while (n < 0 && errno == EINTR); // interrupted by a signal
+        if (n <= 0) // nothing will ever be read
+        {
+            endOfInput = true;
+            return EOF;
+        }
         return buffer;
     }
 
@@ -183,6 +193,7 @@ public:
         is.WaitKbHit();
 
         auto ch = GetChar();
+        if (endOfInput) return std::make_pair(KeyType::eof,' ');
         switch(ch)
         {
             case EOF:
@@ -244,6 +255,7 @@ public:
     }
 
     bool enabled;
+    bool endOfInput = false; // used by the servant thread only
     termios oldt;
     termios newt;
     InputSource is;
-- 
2.43.0


From f275d45c3786f5556680bb58d4afbb460bdb1677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 24/31] fix: the keyboard does not read the input of a running
 command and stops also within a key sequence

---
 include/cli/detail/linuxkeyboard.h | 42 ++++++++++++++++--------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 6d4b83c..bed7274 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -124,7 +124,13 @@ public:
     }
     ~LinuxKeyboard() override
     {
-        ToStandardMode();
+        {
+            std::lock_guard<std::mutex> lock(mtx);
+            ToStandardMode();
+            enabled = false;
+            stopping = true;
+            cv.notify_one();
+        }
         is.Stop();
         servant.join();
     }
@@ -134,8 +140,8 @@ public:
     }
     void DeactivateInput() override
     {
-        ToStandardMode();
         std::lock_guard<std::mutex> lock(mtx);
+        ToStandardMode();
         enabled = false;
     }
     
@@ -144,8 +150,8 @@ public:
     // we need a private non virtual method to call from the constructor
     void ActivateInputImpl()
     {
-        ToManualMode();
         std::lock_guard<std::mutex> lock(mtx);
+        ToManualMode();
         enabled = true;
         cv.notify_one();
     }
@@ -156,10 +162,6 @@ public:
         {
             while (true)
             {
-                {
-                    std::unique_lock<std::mutex> lock(mtx);
-                    cv.wait(lock, [this]{ return enabled; }); // release mtx, suspend thread execution until enabled becomes true
-                }
                 auto k = Get();
                 Notify(k);
                 if (endOfInput) return;
@@ -173,25 +175,26 @@ public:
 
     char GetChar()
     {
-        char buffer = 0;
-        ssize_t n = 0;
-        do
-        {
-            n = read(STDIN_FILENO, &buffer, 1);
-        }
-        while (n < 0 && errno == EINTR); // interrupted by a signal
-        if (n <= 0) // nothing will ever be read
+        while (true)
         {
-            endOfInput = true;
+            {
+                std::unique_lock<std::mutex> lock(mtx);
+                cv.wait(lock, [this]{ return enabled || stopping; }); // release mtx, suspend thread execution until enabled becomes true
+            }
+            is.WaitKbHit();
+            std::lock_guard<std::mutex> lock(mtx);
+            if (!enabled) continue; // the input is not for the session (e.g., it's for the running command)
+            char buffer = 0;
+            const auto n = read(STDIN_FILENO, &buffer, 1);
+            if (n == 1) return buffer;
+            if (n < 0 && errno == EINTR) continue; // interrupted by a signal
+            endOfInput = true; // nothing will ever be read
             return EOF;
         }
-        return buffer;
     }
 
     std::pair<KeyType,char> Get()
     {
-        is.WaitKbHit();
-
         auto ch = GetChar();
         if (endOfInput) return std::make_pair(KeyType::eof,' ');
         switch(ch)
@@ -255,6 +258,7 @@ public:
     }
 
     bool enabled;
+    bool stopping = false;
     bool endOfInput = false; // used by the servant thread only
     termios oldt;
     termios newt;
-- 
2.43.0


From a80e3ed95845f2e9df567f6488df94c2c82d2f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 25/31] fix: a backslash at the end of a command line is not
 lost

---
 include/cli/detail/split.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cli/detail/split.h b/include/cli/detail/split.h
index cea4fe2..4a3e07d 100644
--- a/include/cli/detail/split.h
+++ b/include/cli/detail/split.h
@@ -52,6 +52,8 @@ public:
         Reset();
         for (char c: input)
             Eval(c);
+        if (state == State::escape) // nothing follows the backslash
+            splitResult.back() += '\\';
         RemoveEmptyEntries();
         splitResult.swap(strs); // puts the result back in strs
     }
-- 
2.43.0


From 2c5e0855a4be86082e6fef2b9706277797613090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 26/31] fix: asio schedulers: concurrent calls to Stop raced on
 the work guard

---
 include/cli/detail/genericasioscheduler.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cli/detail/genericasioscheduler.h b/include/cli/detail/genericasioscheduler.h
index 7fb2979..8aa9f99 100644
--- a/include/cli/detail/genericasioscheduler.h
+++ b/include/cli/detail/genericasioscheduler.h
@@ -32,6 +32,7 @@
 
 #include "../scheduler.h"
 #include <memory> // unique_ptr
+#include <mutex>
 
 namespace cli
 {
@@ -71,7 +72,10 @@ public:
     void Stop()
     {
         if (work)
+        {
+            std::lock_guard<std::mutex> lck(workMtx);
             ASIOLIB::Reset(*work);
+        }
         context->stop();
     }
 
@@ -103,6 +107,7 @@ private:
     bool owned = false;
     ContextType* context;
     ExecutorType executor;
+    std::mutex workMtx; // Stop can be called by several threads
     std::unique_ptr<WorkGuard> work;
 };
 
-- 
2.43.0


From 81de2168afc03fabc987078d031c49c5fba12b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 27/31] fix: end of input in the middle of an escape sequence
 ends the local session

---
 include/cli/detail/linuxkeyboard.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index bed7274..491eeb5 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -163,6 +163,7 @@ public:
             while (true)
             {
                 auto k = Get();
+                if (endOfInput) k = std::make_pair(KeyType::eof,' '); // even in the middle of a sequence
                 Notify(k);
                 if (endOfInput) return;
             }
@@ -196,7 +197,6 @@ public:
     std::pair<KeyType,char> Get()
     {
         auto ch = GetChar();
-        if (endOfInput) return std::make_pair(KeyType::eof,' ');
         switch(ch)
         {
             case EOF:
-- 
2.43.0


From 99100b1677e4d16d9483eb7b9c38d20e345d91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 28/31] fix: the keyboard does not block holding its lock when
 a running command has read the input

---
 include/cli/detail/linuxkeyboard.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 491eeb5..b685987 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -97,6 +97,16 @@ public:
         assert(false);
     }
 
+    // whether there is something to read right now
+    bool KbHit() const
+    {
+        fd_set rfds;
+        FD_ZERO(&rfds);
+        FD_SET(STDIN_FILENO, &rfds);
+        timeval now{};
+        return select(STDIN_FILENO + 1, &rfds, nullptr, nullptr, &now) > 0;
+    }
+
     void Stop()
     {
         auto unused = write(shutdownPipe, " ", 1);
@@ -185,6 +195,7 @@ public:
             is.WaitKbHit();
             std::lock_guard<std::mutex> lock(mtx);
             if (!enabled) continue; // the input is not for the session (e.g., it's for the running command)
+            if (!is.KbHit()) continue; // the running command has already read the input
             char buffer = 0;
             const auto n = read(STDIN_FILENO, &buffer, 1);
             if (n == 1) return buffer;
-- 
2.43.0


From d4baa7dd4bcbfb88d486935723cfb07ffa060397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 29/31] fix: single characters broadcast to the sessions
 ignored the state and used the width of each session's stream

Cli::cout() wrote blocks to the buffers of the sessions but single characters
with a formatted insertion, so that a session whose stream had an error flag
set lost them, and a width left on it padded them.
---
 include/cli/cli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index bc50c34..1a25afe 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -91,7 +91,7 @@ namespace cli
         int overflow(int c) override
         {
             for (auto os: ostreams)
-                *os << static_cast<char>(c);
+                os->rdbuf()->sputc(static_cast<char>(c));
             return c;
         }            
 
-- 
2.43.0


From 9ac57a3e33eb17e8f51ecd8797a1e6f38327abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 30/31] fix: commands containing line feeds are restored from
 the history file as they were

---
 include/cli/filehistorystorage.h | 42 +++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/include/cli/filehistorystorage.h b/include/cli/filehistorystorage.h
index 1a59f95..d42fe90 100644
--- a/include/cli/filehistorystorage.h
+++ b/include/cli/filehistorystorage.h
@@ -56,8 +56,8 @@ public:
                 commands.begin() + static_cast<dt>(commands.size() - maxSize)
             );
         std::ofstream f(fileName, std::ios_base::out);
-            for (const auto& line: commands)
-                f << line << '\n';
+            for (const auto& command: commands)
+                f << ToLines(command) << '\n';
     }
     std::vector<std::string> Commands() const override
     {
@@ -66,8 +66,15 @@ public:
         if (in)
         {
             std::string line;
+            std::string command;
             while (std::getline(in, line))
-                commands.push_back(line);
+            {
+                if (!AppendLine(command, line)) continue;
+                commands.push_back(command);
+                command.clear();
+            }
+            if (!command.empty()) // the file ends in the middle of a command
+                commands.push_back(command);
         }
         return commands;
     }
@@ -77,6 +84,35 @@ public:
     }
 
 private:
+    // A command can contain line feeds (in quotes): each one is written after a backslash,
+    // and backslashes at the end of a line are doubled.
+    static std::string ToLines(const std::string& command)
+    {
+        std::string result;
+        std::size_t backslashes = 0; // just before the current character
+        for (char c: command)
+        {
+            if (c == '\n')
+                result.append(backslashes + 1, '\\');
+            backslashes = (c == '\\') ? backslashes + 1 : 0;
+            result += c;
+        }
+        result.append(backslashes, '\\');
+        return result;
+    }
+
+    // Appends a line of the file to the command. Returns false if the command continues in the next line.
+    static bool AppendLine(std::string& command, const std::string& line)
+    {
+        const auto last = line.find_last_not_of('\\');
+        const auto backslashes = line.size() - (last == std::string::npos ? 0 : last + 1);
+        command.append(line, 0, line.size() - (backslashes + 1) / 2);
+        const bool complete = (backslashes % 2 == 0);
+        if (!complete)
+            command += '\n';
+        return complete;
+    }
+
     const std::size_t maxSize;
     const std::string fileName;
 };
-- 
2.43.0


From 4a41b2f69c9793959c51b40ccb2c0fb42ed1ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 31/31] fix: the local keyboard gets every key at once whatever
 the VMIN of the terminal

---
 include/cli/detail/linuxkeyboard.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index b685987..295caf5 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -260,6 +260,8 @@ public:
         tcgetattr(STDIN_FILENO, &oldt);
         newt = oldt;
         newt.c_lflag &= ~( ICANON_FLAG | ECHO_FLAG );
+        newt.c_cc[VMIN] = 1; // every key is available as soon as it is pressed
+        newt.c_cc[VTIME] = 0;
         tcsetattr(STDIN_FILENO, TCSANOW, &newt);
     }
 
-- 
2.43.0

