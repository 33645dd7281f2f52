From 1142ecf7207077479ef6d52dd9b670bb6ed9412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 01/32] fix: count clang-tidy checks with digits, aliases or
 -warnings-as-errors in their name

Names such as [cert-err58-cpp] or [foo-check,-warnings-as-errors] did not
match, so a project with only such findings was reported as clean.
---
 scripts/run-clang-tidy-cached.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 9cedb14..485ef73 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -442,7 +442,7 @@ class FileGatherer {
     const fs::path tidy_summary = cache_dir / ("tidy-summary.out-" + suffix);
 
     // Assemble the separate outputs into a single file. Tally up per-check
-    const std::regex check_re("(\\[[a-zA-Z.-]+\\])\n");
+    const std::regex check_re("(\\[[a-zA-Z0-9.,_+-]+\\])\n");
     std::map<std::string, int> checks_seen;
     std::ofstream tidy_collect(tidy_outfile);
     for (const filepath_contenthash_t &f : files_of_interest_) {
-- 
2.43.0


From b17a01c8ac8273ee2736419770a9fd217d1d6ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 02/32] fix: escape project path used in a regular expression

A checkout below a directory such as c++/ or (old)/ either made the
linter throw or left absolute paths in the report.
---
 scripts/run-clang-tidy-cached.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 485ef73..61b11aa 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -328,6 +328,12 @@ class ClangTidyRunner {
                                 ToHex(cache_unique_id, 8));
   }
 
+  // Escape characters in path that are special in a regular expression.
+  static std::string RegexEscape(const std::string &path) {
+    static const std::regex sSpecialChars(R"([.^$|()\[\]{}*+?\\])");
+    return std::regex_replace(path, sSpecialChars, "\\$&");
+  }
+
   // Fix filename paths found in logfiles that are not emitted relative to
   // project root in the log - remove that prefix.
   // (bazel has its own, so if this is bazel, also bazel-specific fix up that).
@@ -339,10 +345,10 @@ class ClangTidyRunner {
         auto bzroot = GetCommandOutput("bazel info execution_root 2>/dev/null");
         if (!bzroot.empty()) {
           bzroot.pop_back();  // remove newline.
-          canonicalize_expr += bzroot + "/|";
+          canonicalize_expr += RegexEscape(bzroot) + "/|";
         }
       }
-      canonicalize_expr += fs::current_path().string() + "/";  // $(pwd)/
+      canonicalize_expr += RegexEscape(fs::current_path().string()) + "/";
       canonicalize_expr +=
         ")?(\\./)?";  // Some start with, or have a trailing ./
       return std::regex{canonicalize_expr};
-- 
2.43.0


From 0ead62dbdad78b5d9bdf30e4c8b237655f146fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 03/32] fix: make cached clang-tidy results depend on path and
 all included headers

Hashes were xor-ed, so that the same header name included twice, two copies
of a header, or a header including one of the same name cancelled out and
left stale results. Files with same name and content in different
directories shared one result (with the path of whichever came first), and
raced to write it. Includes such as "foo.pb.h" or "../foo.h" were ignored.
---
 scripts/run-clang-tidy-cached.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 61b11aa..8604756 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -400,9 +400,10 @@ class FileGatherer {
           IsIncludeExtension(extension)) {
         // Since the files might be included sloppily without prefix path,
         // just keep track of the basename (but since there might be collisions,
-        // accomodate all of them by xor-ing the hashes).
+        // accomodate all of them by xor-ing the hashes; including the path, so
+        // that headers of same content don't cancel each other out).
         const std::string just_basename = p.filename();
-        header_hashes[just_basename] ^= hashContent(GetContent(p));
+        header_hashes[just_basename] ^= hashContent(file + '\n' + GetContent(p));
       }
     }
     std::cerr << files_of_interest_.size() << " files of interest.\n";
@@ -411,22 +412,28 @@ class FileGatherer {
     // If we want to revisit if headers changed, make hash dependent on them.
     std::list<filepath_contenthash_t> work_queue;
     const std::regex inc_re(
-        R"""(#\s*include\s+"([0-9a-zA-Z_/-]+\.[a-zA-Z]+)")""");
+        R"""(#\s*include\s*"([^"\n]+)")""");
     for (filepath_contenthash_t &work_file : files_of_interest_) {
       const auto content = GetContent(work_file.first);
-      work_file.second = hashContent(content);
+      // The findings also mention the path, so it is part of the address.
+      std::string fingerprint = work_file.first.string() + '\n' + content;
       if (kConfig.revisit_if_any_include_changes) {
         // Update the hash with all the hashes from all include files.
+        std::map<std::string, hash_t> included;
         for (ReIt it(content.begin(), content.end(), inc_re); it != ReIt();
              ++it) {
           const std::string &header_path = (*it)[1].str();
           const std::string header_basename = fs::path(header_path).filename();
           const auto found = header_hashes.find(header_basename);
           if (found != header_hashes.end()) {
-            work_file.second ^= found->second;
+            included.insert(*found);
           }
         }
+        for (const auto &[name, hash] : included) {
+          fingerprint.append(name).append(ToHex(hash));
+        }
       }
+      work_file.second = hashContent(fingerprint);
       // Recreate if we don't have it yet or if it contains findings but is
       // older than build environment. Maybe something got fixed: revisit file.
       if (store_.NeedsRefresh(work_file, min_freshness)) {
-- 
2.43.0


From daf6af8eac1041aebefd0deebe0cf04e7e108666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 04/32] fix: never cache the result of a failed clang-tidy run

Output of a clang-tidy that could not be started, crashed, or whose output
could not be written (disk full) was stored as (clean or partial) result of
the file, and the run reported success. Concurrent invocations and orphaned
clang-tidy processes wrote to the same temporary file; the result could be
wrong, or the rename threw in a worker thread.

So collect the output through a pipe, check exit status, write to a
temporary file only used by this process, check that, and exit with failure
if there are files that could not be analyzed.
---
 scripts/run-clang-tidy-cached.cc | 103 +++++++++++++++++++++++--------
 1 file changed, 78 insertions(+), 25 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 8604756..d5b369a 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -169,8 +169,22 @@ std::string GetContent(const fs::path &f) {
   return GetContent(file_to_read);
 }
 
+// Run command, store its standard output in "output". Returns wait-status of
+// the command or -1 if it could not be run.
+int RunCommand(const std::string &prog, std::string *output) {
+  FILE *const pipe = popen(prog.c_str(), "r");  // NOLINT
+  if (!pipe) return -1;
+  char buf[4096];
+  while (const size_t r = fread(buf, 1, sizeof(buf), pipe)) {
+    output->append(buf, r);
+  }
+  return pclose(pipe);
+}
+
 std::string GetCommandOutput(const std::string &prog) {
-  return GetContent(popen(prog.c_str(), "r"));  // NOLINT
+  std::string result;
+  RunCommand(prog, &result);
+  return result;
 }
 
 hash_t hashContent(const std::string &s) { return std::hash<std::string>()(s); }
@@ -230,18 +244,24 @@ class ClangTidyRunner {
 
   const fs::path &project_cache_dir() const { return project_cache_dir_; }
 
-  // Given a work-queue in/out-file, process it. Using system() for portability.
-  // Empties work_queue.
-  void RunClangTidyOn(ContentAddressedStore &output_store,
-                      std::list<filepath_contenthash_t> *work_queue) {
-    if (work_queue->empty()) return;
+  // Given a work-queue in/out-file, process it. Using popen() for portability.
+  // Empties work_queue. Returns number of files that could not be analyzed;
+  // there is no result stored for these.
+  size_t RunClangTidyOn(ContentAddressedStore &output_store,
+                        std::list<filepath_contenthash_t> *work_queue) {
+    if (work_queue->empty()) return 0;
     const int kJobs = std::thread::hardware_concurrency();
     std::cerr << work_queue->size() << " files to process...";
 
     const bool print_progress = isatty(STDERR_FILENO);
     if (!print_progress) std::cerr << "\n";
 
-    std::mutex queue_access_lock;
+    // Ctrl-C ends the clang-tidy processes, but we still want to do the report.
+    const auto previous_sigint = std::signal(SIGINT, [](int) {});
+    const auto previous_sigquit = std::signal(SIGQUIT, [](int) {});
+
+    size_t failed_count = 0;
+    std::mutex queue_access_lock;  // Also protects failed_count
     auto clang_tidy_runner = [&]() {
       for (;;) {
         filepath_contenthash_t work;
@@ -255,23 +275,28 @@ class ClangTidyRunner {
           work_queue->pop_front();
         }
         const fs::path final_out = output_store.PathFor(work);
-        const std::string tmp_out = final_out.string() + ".tmp";
         // Putting the file to clang-tidy early in the command line so that
         // it is easy to find with `ps` or `top`.
         const std::string command = clang_tidy_ + " '" + work.first.string() +
-                                    "'" + clang_tidy_args_ + "> '" + tmp_out +
-                                    "' 2>/dev/null";
-        const int r = system(command.c_str());
+                                    "'" + clang_tidy_args_ + " 2>/dev/null";
+        std::string output;
+        const int r = RunCommand(command, &output);
+        const bool success = IsValidResult(r, output) &&
+                             StoreResult(RepairFilenameOccurences(output),
+                                         final_out);
+        if (!success) {
+          const std::lock_guard<std::mutex> lock(queue_access_lock);
+          std::cerr << work.first.string() << ": could not be analyzed.\n";
+          ++failed_count;
+        }
 #ifdef WIFSIGNALED
         // NOLINTBEGIN
-        if (WIFSIGNALED(r) &&
+        if (r != -1 && WIFSIGNALED(r) &&
             (WTERMSIG(r) == SIGINT || WTERMSIG(r) == SIGQUIT)) {
           break;  // got Ctrl-C
         }
         // NOLINTEND
 #endif
-        RepairFilenameOccurences(tmp_out, tmp_out);
-        fs::rename(tmp_out, final_out);  // atomic replacement
       }
     };
 
@@ -280,9 +305,12 @@ class ClangTidyRunner {
       workers.emplace_back(clang_tidy_runner);  // NOLINT
     }
     for (auto &t : workers) t.join();
+    std::signal(SIGINT, previous_sigint);
+    std::signal(SIGQUIT, previous_sigquit);
     if (print_progress) {
       fprintf(stderr, "     \n");  // Clean out progress counter.
     }
+    return failed_count + work_queue->size();
   }
 
  private:
@@ -334,11 +362,36 @@ class ClangTidyRunner {
     return std::regex_replace(path, sSpecialChars, "\\$&");
   }
 
+  // clang-tidy returns 0 or, if it found errors, 1. Everything else means that
+  // it was not started (shell: 126, 127) or crashed (shell: 128 + signal).
+  static bool IsValidResult(int wait_status, const std::string &output) {
+    // NOLINTBEGIN
+    if (wait_status == -1 || !WIFEXITED(wait_status)) return false;
+    const int exit_code = WEXITSTATUS(wait_status);
+    // NOLINTEND
+    return exit_code == 0 || (exit_code == 1 && !output.empty());
+  }
+
+  // Write to a temporary file unique to this process, then move in place.
+  static bool StoreResult(const std::string &result, const fs::path &final_out) {
+    const fs::path tmp_out =
+      final_out.string() + ".tmp-" + std::to_string(getpid());
+    std::ofstream out_stream(tmp_out);
+    out_stream << result;
+    out_stream.close();
+    std::error_code ec;
+    if (out_stream) {
+      fs::rename(tmp_out, final_out, ec);  // atomic replacement
+      if (!ec) return true;
+    }
+    fs::remove(tmp_out, ec);
+    return false;
+  }
+
   // Fix filename paths found in logfiles that are not emitted relative to
   // project root in the log - remove that prefix.
   // (bazel has its own, so if this is bazel, also bazel-specific fix up that).
-  static void RepairFilenameOccurences(const fs::path &infile,
-                                       const fs::path &outfile) {
+  static std::string RepairFilenameOccurences(const std::string &in_content) {
     static const std::regex sFixPathsRe = []() {
       std::string canonicalize_expr = "(^|\\n)(";  // fix names at start of line
       if (kConfig.is_bazel_project) {
@@ -354,9 +407,7 @@ class ClangTidyRunner {
       return std::regex{canonicalize_expr};
     }();
 
-    const auto in_content = GetContent(infile);
-    std::fstream out_stream(outfile, std::ios::out);
-    out_stream << std::regex_replace(in_content, sFixPathsRe, "$1");
+    return std::regex_replace(in_content, sFixPathsRe, "$1");
   }
 
   const std::string clang_tidy_;
@@ -445,7 +496,7 @@ class FileGatherer {
 
   // Tally up findings for files of interest and assemble in one file.
   // (BuildWorkList() needs to be called first).
-  size_t CreateReport(const fs::path &cache_dir,
+  size_t CreateReport(const fs::path &cache_dir, bool all_analyzed,
                       std::string_view symlink_detail,
                       std::string_view symlink_summary) const {
     // Make it possible to keep independent reports for different invocation
@@ -471,7 +522,8 @@ class FileGatherer {
     fs::create_symlink(tidy_outfile, symlink_detail, ignored_error);
 
     // Report headline.
-    if (checks_seen.empty()) {
+    if (!all_analyzed) std::cerr << "Some files could not be analyzed.\n";
+    if (checks_seen.empty() && all_analyzed) {
       std::cerr << "No clang-tidy complaints. 😎\n";
     } else {
       std::cerr << "Details: " << symlink_detail << "\n"
@@ -490,9 +542,10 @@ class FileGatherer {
     FILE *summary_file = fopen(tidy_summary.c_str(), "wb");
     for (const auto &counts : by_count) {
       fprintf(stdout, "%5d %s\n", counts.second, counts.first.c_str());
+      if (!summary_file) continue;
       fprintf(summary_file, "%5d %s\n", counts.second, counts.first.c_str());
     }
-    fclose(summary_file);
+    if (summary_file) fclose(summary_file);
 
     fs::remove(symlink_summary, ignored_error);
     fs::create_symlink(tidy_summary, symlink_summary, ignored_error);
@@ -548,12 +601,12 @@ int main(int argc, char *argv[]) {
   auto work_list = cc_file_gatherer.BuildWorkList(build_env_latest_change);
 
   // Now the expensive part...
-  runner.RunClangTidyOn(store, &work_list);
+  const size_t failed = runner.RunClangTidyOn(store, &work_list);
 
   const std::string detailed_report = cache_prefix + "clang-tidy.out";
   const std::string summary = cache_prefix + "clang-tidy.summary";
   const size_t tidy_count = cc_file_gatherer.CreateReport(
-    runner.project_cache_dir(), detailed_report, summary);
+    runner.project_cache_dir(), failed == 0, detailed_report, summary);
 
-  return tidy_count == 0 ? EXIT_SUCCESS : EXIT_FAILURE;
+  return tidy_count == 0 && failed == 0 ? EXIT_SUCCESS : EXIT_FAILURE;
 }
-- 
2.43.0


From 16f3dce9023e16f99c78ccab8807dde48d41ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 05/32] fix: don't crash on dependencies in packages whose
 BUILD file can't be read

---
 bant/explore/dependency-graph.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index cadd23c..386012b 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -76,6 +76,9 @@ void FindAndParseMissingPackages(Session &session,
     if (project->FindParsedOrNull(package) != nullptr) {
       continue;  // have it already.
     }
+    if (error_packages->contains(package)) {
+      continue;  // Already tried before without success.
+    }
     auto path = PathForPackage(session, workspace, package);
     if (!path.has_value()) {
       error_packages->insert(package);
@@ -85,6 +88,10 @@ void FindAndParseMissingPackages(Session &session,
     // building, as it might expand more dpendencies.
     // TODO: but do we need expensive glob() enabled ?
     ParsedBuildFile *file = project->AddBuildFile(session, *path, package);
+    if (!file) {  // E.g. not readable.
+      error_packages->insert(package);
+      continue;
+    }
     bant::Elaborate(session, project, file);
   }
 }
-- 
2.43.0


From 81bf29cada258f2abbdd363ba1874473189b2087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 06/32] fix: find BUILD file of the top-level package when
 following dependencies

---
 bant/explore/dependency-graph.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index 386012b..22a025f 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -58,6 +58,8 @@ std::optional<FilesystemPath> PathForPackage(Session &session,
     if (!start_path.empty()) start_path.append("/");
     start_path.append(package.path);
   }
+  if (start_path.empty()) start_path = ".";  // package at the workspace root
+
   const ScopedTimer timer(&stat.duration);
   for (const std::string_view build_file : {"BUILD", "BUILD.bazel"}) {
     FilesystemPath test_path(start_path, build_file);
-- 
2.43.0


From 71678b1cfd054a2b5fc3f09907e139cdf53447b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:11 +0000
Subject: [PATCH 07/32] fix: don't abort if the prewarm cache directory can't
 be examined

---
 bant/util/filesystem-prewarm-cache.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bant/util/filesystem-prewarm-cache.cc b/bant/util/filesystem-prewarm-cache.cc
index a0db78d..a2b0fed 100644
--- a/bant/util/filesystem-prewarm-cache.cc
+++ b/bant/util/filesystem-prewarm-cache.cc
@@ -162,10 +162,10 @@ void FilesystemPrewarmCacheInit(int argc, char *argv[]) {
   const char *homedir = getenv("HOME");
   if (!homedir) return;
   const std::string cache_dir = absl::StrCat(homedir, "/.cache/bant");
-  if (!std::filesystem::is_directory(cache_dir)) return;  // no dir, no cache.
+  std::error_code err;
+  if (!std::filesystem::is_directory(cache_dir, err)) return;  // no cache.
 
   // Make filename unique to match cwd and arguments.
-  std::error_code err;
   auto cwd = std::filesystem::current_path(err);
   uint64_t argument_dependent_hash = std::hash<std::string>()(cwd.string());
   for (int i = 1; i < argc; ++i) {
-- 
2.43.0


From 2f69af9a33395e047ee3e7c21d9955df9fe56adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:50 +0000
Subject: [PATCH 08/32] fix: don't abort on include_prefix in targets of the
 main project

---
 bant/tool/compilation-db.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 746359f..d85e53a 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -165,6 +165,7 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
       {"cc_library", "cc_binary", "cc_test", "proto_library"},
       [&](const query::Result &details) {
         auto target = current_package.QualifiedTarget(details.name);
+        if (!target.has_value()) return;
         // If we're one of those targets that come with the own -I prefix,
         // add all these.
         const auto inc_dirs = query::ExtractStringList(details.includes_list);
@@ -184,9 +185,13 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
           // to use this feature.
           const std::string_view external_project = target->package.project;
           const std::string_view target_path = target->package.path;
-          const std::string virt_incdir = absl::StrCat(
-            "bazel-bin/external/", external_project.substr(1), "/", target_path,
-            "/_virtual_includes/", target->target_name);
+          const std::string external_prefix =
+            external_project.empty()
+              ? ""
+              : absl::StrCat("external/", external_project.substr(1), "/");
+          const std::string virt_incdir =
+            absl::StrCat("bazel-bin/", external_prefix, target_path,
+                         "/_virtual_includes/", target->target_name);
           if (already_seen.insert(virt_incdir).second) {
             result.emplace_back(virt_incdir);
           }
-- 
2.43.0


From 579364e55e23a0561ba9be6f5a6bbfb53e6f1526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:50 +0000
Subject: [PATCH 09/32] fix: don't abort compilation-db if the current
 directory is not known

---
 bant/tool/compilation-db.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index d85e53a..3fd77f5 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -26,6 +26,7 @@
 #include <sstream>
 #include <string>
 #include <string_view>
+#include <system_error>
 #include <vector>
 
 #include "absl/container/flat_hash_set.h"
@@ -285,7 +286,13 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
 static void WriteCompilationDB(Session &session, const ParsedProject &project,
                                const BazelPattern &pattern) {
   std::ostream &out = session.out();
-  const std::string cwd = std::filesystem::current_path().string();
+  std::error_code err;
+  const std::string cwd = std::filesystem::current_path(err).string();
+  if (err) {
+    session.error() << "Can't determine current directory: " << err.message()
+                    << "\n";
+    return;
+  }
 
   // Instead of being specific which *.cc file uses which external
   // headers (which would require to recusively follow all its dependencies),
-- 
2.43.0


From 2366a84bbabe86ce53f75a144442706e5759f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 10/32] fix: report failure to write the output

---
 bant/bant.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bant/bant.cc b/bant/bant.cc
index 5dd0c82..946a511 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -130,7 +130,7 @@ Commands (unique prefix sufficient):
 
 int main(int argc, char *argv[]) {
   // non-nullptr streams if chosen by user.
-  std::unique_ptr<std::ostream> user_primary_out;
+  std::unique_ptr<std::fstream> user_primary_out;
   std::unique_ptr<std::ostream> user_info_out;
 
   // Default primary and info outputs.
@@ -236,6 +236,13 @@ int main(int argc, char *argv[]) {
     return usage(argv[0], nullptr, static_cast<int>(result));
   }
 
+  // Only a success if all the output made it to its destination.
+  bool output_written = primary_out->flush().good();
+  if (user_primary_out) {
+    user_primary_out->close();
+    output_written = output_written && user_primary_out->good();
+  }
+
   if (flags.verbose) {
     // If verbose explicitly chosen, we want to print this even if -q.
     // So not to info_out, but std::cerr
@@ -243,5 +250,10 @@ int main(int argc, char *argv[]) {
       std::cerr << subsystem << " " << *session.stat(subsystem) << "\n";
     }
   }
+
+  if (!output_written) {
+    std::cerr << "Could not write output.\n";
+    return EXIT_FAILURE;
+  }
   return static_cast<int>(result);
 }
-- 
2.43.0


From 994339e208c2593420665443189eecb6cb874aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 11/32] fix: don't crash on the incomplete syntax tree of a
 file with parse errors

---
 bant/explore/query-utils.cc     |  1 +
 bant/frontend/elaboration.cc    | 10 ++++++++--
 bant/frontend/parsed-project.cc |  1 +
 bant/tool/dwyu.cc               |  1 +
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/bant/explore/query-utils.cc b/bant/explore/query-utils.cc
index bb91240..7a5783b 100644
--- a/bant/explore/query-utils.cc
+++ b/bant/explore/query-utils.cc
@@ -191,6 +191,7 @@ void FindTargetsAllowEmptyName(
 void AppendStringList(List *list, std::vector<std::string_view> &append_to) {
   if (list == nullptr) return;
   for (Node *n : *list) {
+    if (!n) continue;  // Parse error.
     Scalar *scalar = n->CastAsScalar();
     if (!scalar) continue;
     if (const std::string_view str = scalar->AsString(); !str.empty()) {
diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index e37432f..0b184d0 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -79,7 +79,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
 
   Node *VisitAssignment(Assignment *a) final {
     Node *result = BaseNodeReplacementVisitor::VisitAssignment(a);
-    if (nest_level_ == 0 && a->maybe_identifier()) {
+    if (nest_level_ == 0 && a->maybe_identifier() && a->value()) {
       global_variables_[a->maybe_identifier()->id()] = a->value();
     }
     return result;
@@ -96,6 +96,8 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     Node *post_visit = BaseNodeReplacementVisitor::VisitBinOpNode(b);
     BinOpNode *bin_op = post_visit->CastAsBinOp();  // still binop ?
     if (!bin_op) return post_visit;
+    // Sides can be missing if there was a parse error.
+    if (!bin_op->left() || !bin_op->right()) return bin_op;
     switch (bin_op->op()) {
     case '+': {
       {
@@ -156,11 +158,14 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
 
   Node *HandleSelect(FunCall *fun) {
     for (Node *arg : *fun->argument()) {
+      if (!arg) continue;  // Parse error.
       List *const select_map = arg->CastAsList();
       if (!select_map || select_map->type() != List::Type::kMap) continue;
       for (Node *item : *select_map) {
+        if (!item) continue;  // Parse error.
         BinOpNode *map_item = item->CastAsBinOp();
         if (!map_item || map_item->op() != ':') continue;
+        if (!map_item->left() || !map_item->right()) continue;  // Parse error
         Scalar *key = map_item->left()->CastAsScalar();
         if (key && conditions_.contains(key->AsString())) {
           return map_item->right();
@@ -175,12 +180,13 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     List *include_list = nullptr;
     List *exclude_list = nullptr;
     for (Node *arg : *fun->argument()) {
+      if (!arg) continue;  // Parse error.
       if (List *as_list = arg->CastAsList()) {
         include_list = as_list;  // include_list is positional parameter.
         continue;
       }
       if (Assignment *kwarg = arg->CastAsAssignment()) {
-        if (!kwarg->maybe_identifier()) continue;
+        if (!kwarg->maybe_identifier() || !kwarg->value()) continue;
         const std::string_view kw = kwarg->maybe_identifier()->id();
         if (kw == "include") {
           include_list = kwarg->value()->CastAsList();
diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index f349c44..4604500 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -241,6 +241,7 @@ static void MaybePrintVisibility(List *visibility, std::ostream &out) {
   if (!visibility) return;
   out << " (visibility:";
   for (Node *v : *visibility) {
+    if (!v) continue;  // Parse error.
     Scalar *s = v->CastAsScalar();
     if (!s) continue;
     out << " " << s->AsString();
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 46ef440..bd71eb1 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -220,6 +220,7 @@ bool DWYUGenerator::CanSee(const BazelTarget &target,
   if (!visibility_list) return true;
   bool any_valid_visiblity_pattern = false;
   for (Node *entry : *visibility_list) {
+    if (!entry) continue;  // Parse error.
     const Scalar *str = entry->CastAsScalar();
     if (!str) continue;
     auto vis_or = BazelPattern::ParseVisibility(str->AsString(), dep.package);
-- 
2.43.0


From 15ada043c033c2c49f0d50c10b4fab25632fedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:25 +0000
Subject: [PATCH 12/32] fix: use the same prewarm cache for all spellings of
 irrelevant flags

---
 bant/util/filesystem-prewarm-cache.cc | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/bant/util/filesystem-prewarm-cache.cc b/bant/util/filesystem-prewarm-cache.cc
index a2b0fed..2ce6289 100644
--- a/bant/util/filesystem-prewarm-cache.cc
+++ b/bant/util/filesystem-prewarm-cache.cc
@@ -169,18 +169,20 @@ void FilesystemPrewarmCacheInit(int argc, char *argv[]) {
   auto cwd = std::filesystem::current_path(err);
   uint64_t argument_dependent_hash = std::hash<std::string>()(cwd.string());
   for (int i = 1; i < argc; ++i) {
-    const std::string_view arg(argv[i]);
+    std::string_view arg(argv[i]);
     // With or without the following flags, same access pattern expected; don't
-    // inlude them in the cache uniqifier.
-    if (arg == "-v" || arg == "-q" || arg == "-vq" || arg == "-qv" ||
-        arg == "-k") {
-      continue;
-    }
-
-    if (arg == "-C" ||  // already reflected in the cwd
-        arg == "-o" || arg == "-f") {
-      ++i;  // Skip optarg
-      continue;
+    // inlude them in the cache uniqifier. Like getopt(), deal with flags that
+    // are combined and with option arguments glued to their flag.
+    if (arg.length() > 1 && arg[0] == '-') {
+      const auto flag_pos = arg.find_first_not_of("vqk", 1);
+      if (flag_pos == std::string_view::npos) continue;
+      arg.remove_prefix(flag_pos);
+
+      if (arg[0] == 'C' ||  // already reflected in the cwd
+          arg[0] == 'o' || arg[0] == 'f') {
+        if (arg.length() == 1) ++i;  // Skip optarg
+        continue;
+      }
     }
 
     argument_dependent_hash ^= std::hash<std::string_view>()(arg);
-- 
2.43.0


From 2bb4e1ca1da9df2eb25ccb67b09d8b24facf5dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:22 +0000
Subject: [PATCH 13/32] fix: make recursive file collection independent of
 enumeration order and symlinks

---
 bant/util/file-utils.cc | 79 +++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index 03b3261..1eee269 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -23,7 +23,9 @@
 #include <sys/types.h>
 #include <unistd.h>
 
+#include <algorithm>
 #include <cstddef>
+#include <cstdlib>
 #include <cstring>
 #include <deque>
 #include <functional>
@@ -35,6 +37,7 @@
 
 #include "absl/cleanup/cleanup.h"
 #include "absl/container/flat_hash_set.h"
+#include "absl/strings/str_cat.h"
 #include "bant/util/filesystem-prewarm-cache.h"
 
 namespace bant {
@@ -58,7 +61,10 @@ FilesystemPath::FilesystemPath(std::string_view path_up_to,
     is_dir_ = MemoizedResult::kYes;
     is_symlink_ = MemoizedResult::kNo;  // Since we know it is definitely dir
     break;
-  default:;
+  case DT_UNKNOWN: break;
+  default:
+    is_dir_ = MemoizedResult::kNo;
+    is_symlink_ = MemoizedResult::kNo;
   }
 }
 
@@ -99,15 +105,6 @@ bool FilesystemPath::is_symlink() const {
   return (is_symlink_ == MemoizedResult::kYes);
 }
 
-// Test if symbolic link points to a directory and return 'true' if it does.
-// Update "out_inode" with the inode at the destination.
-static bool FollowLinkTestIsDir(const FilesystemPath &path, ino_t *out_inode) {
-  struct stat s;
-  if (stat(path.c_str(), &s) != 0) return false;
-  *out_inode = s.st_ino;
-  return S_ISDIR(s.st_mode);
-}
-
 std::vector<FilesystemPath> Glob(std::string_view glob_pattern) {
   const std::string pattern(glob_pattern);
   glob_t glob_list;
@@ -153,14 +150,25 @@ std::optional<std::string> ReadFileToString(const FilesystemPath &filename) {
 
 // Best effort on filesystems that don't have inodes; they typically emit some
 // placeholder value such as 0 or -1.
-// In consequence, loop-detection is essentially disabled for these filesystems.
-// If this become an issue:
-// TODO: in that case, base loop-detection on realpath() (will be slower).
+// In that case, base loop-detection on realpath() (slower).
 static bool LooksLikeValidInode(ino_t inode) {
   // inode numbers at the edges available numbers look suspicous...
   return inode != 0 && (inode & 0xffff'ffff) != 0xffff'ffff;
 }
 
+// Unique identification of an open directory, independent of the path it was
+// reached with.
+static std::string DirectoryIdentity(DIR *dir, const std::string &path) {
+  struct stat s;
+  if (fstat(dirfd(dir), &s) == 0 && LooksLikeValidInode(s.st_ino)) {
+    return absl::StrCat(s.st_dev, ":", s.st_ino);
+  }
+  char *const resolved = realpath(path.c_str(), nullptr);
+  if (!resolved) return path;
+  const absl::Cleanup free_resolved = [resolved]() { free(resolved); };
+  return resolved;
+}
+
 // FYI: This was previously implemented recursively using
 // std::filesystem::directory_iterator() which was noticeably slower.
 //
@@ -171,40 +179,49 @@ std::vector<FilesystemPath> CollectFilesRecursive(
   const std::function<bool(const FilesystemPath &)> &want_dir_p,
   const std::function<bool(const FilesystemPath &)> &want_file_p) {
   std::vector<FilesystemPath> result_paths;
-  absl::flat_hash_set<ino_t> seen_inode;  // make sure we don't run in circles.
+  absl::flat_hash_set<std::string> seen_dir;  // Don't run in circles.
 
+  // Directories reached through a symbolic link are looked at last; they are
+  // only of interest if they can't be reached otherwise.
   std::deque<std::string> directory_worklist;
+  std::deque<std::string> symlink_worklist;
   directory_worklist.emplace_back(dir.path());
-  while (!directory_worklist.empty()) {
-    const std::string current_dir = directory_worklist.front();
-    directory_worklist.pop_front();
+  while (!directory_worklist.empty() || !symlink_worklist.empty()) {
+    auto &worklist =
+      directory_worklist.empty() ? symlink_worklist : directory_worklist;
+    const std::string current_dir = worklist.front();
+    worklist.pop_front();
 
     DIR *const dir = opendir(current_dir.c_str());
     if (!dir) continue;
     const absl::Cleanup dir_closer = [dir]() { closedir(dir); };
 
     FilesystemPrewarmCacheRememberDirWasAccessed(current_dir);
+    if (!seen_dir.insert(DirectoryIdentity(dir, current_dir)).second) {
+      continue;  // Avoid getting caught in symbolic-link loops.
+    }
+
+    std::vector<FilesystemPath> entries;
     while (dirent *const entry = readdir(dir)) {
       if (strcmp(entry->d_name, ".") == 0 || strcmp(entry->d_name, "..") == 0) {
         continue;
       }
+      entries.emplace_back(current_dir, *entry);
+    }
 
-      FilesystemPath file_or_dir(current_dir, *entry);
-      ino_t inode = entry->d_ino;  // Might need updating below if entry symlink
-
-      // The dirent might already tell us that this is a directory, or, we have
-      // to test it ourselves, e.g. if it is a symlink. Minimize stat() calls.
-      const bool is_directory =
-        (entry->d_type == DT_DIR ||  // Short-path: already known to be a dir
-         ((entry->d_type == DT_UNKNOWN || entry->d_type == DT_LNK) &&
-          FollowLinkTestIsDir(file_or_dir, &inode)));
+    // Result should not depend on order of entries in the filesystem.
+    std::sort(entries.begin(), entries.end(),
+              [](const FilesystemPath &a, const FilesystemPath &b) {
+                return a.path() < b.path();
+              });
 
-      if (is_directory) {
-        if (LooksLikeValidInode(inode) && !seen_inode.insert(inode).second) {
-          continue;  // Avoid getting caught in symbolic-link loops.
-        }
+    for (FilesystemPath &file_or_dir : entries) {
+      // The dirent might have already told us that this is a directory, or, we
+      // have to test it ourselves, e.g. if it is a symlink.
+      if (file_or_dir.is_directory()) {
         if (want_dir_p(file_or_dir)) {
-          directory_worklist.emplace_back(file_or_dir.path());
+          (file_or_dir.is_symlink() ? symlink_worklist : directory_worklist)
+            .emplace_back(file_or_dir.path());
         }
       } else if (want_file_p(file_or_dir)) {
         result_paths.emplace_back(std::move(file_or_dir));
-- 
2.43.0


From 654006674ed1376eb2de5e1aff7c501afbde6a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:35 +0000
Subject: [PATCH 14/32] fix: keep leading dot of directories in package names

---
 bant/frontend/parsed-project.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index 4604500..ce865fb 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -49,7 +49,8 @@ namespace {
 // ./foo/bar/baz/BUILD.bazel turns into foo/bar/baz
 std::string_view TargetPathFromBuildFile(std::string_view file) {
   file = file.substr(0, file.find_last_of('/'));  // Remove BUILD-file
-  while (!file.empty() && (file[0] == '.' || file[0] == '/')) {
+  // Remove leading slashes and ./, but keep names starting with a dot.
+  while (file.starts_with('/') || file == "." || file.starts_with("./")) {
     file.remove_prefix(1);
   }
   return file;
-- 
2.43.0


From 9fe6e59fa790962c6b62c2f564c5fc2a7dc1ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:53 +0000
Subject: [PATCH 15/32] fix: don't let a variable replace the name of a called
 function

---
 bant/frontend/ast.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/ast.h b/bant/frontend/ast.h
index ac6dff3..fd55af0 100644
--- a/bant/frontend/ast.h
+++ b/bant/frontend/ast.h
@@ -393,7 +393,9 @@ class BaseNodeReplacementVisitor : public NodeVisitor {
   }
 
   Node *VisitFunCall(FunCall *f) override {
-    ReplaceWalk(&f->left_);
+    // Whatever variable has the same name: function stays an identifier.
+    Node *const function = WalkNonNull(f->left_);
+    if (function && function->CastAsIdentifier()) f->left_ = function;
     ReplaceWalk(&f->right_);
     return f;
   }
-- 
2.43.0


From d8159aeae265eaab102768de06c1fa7785b9c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 16/32] fix: dwyu: don't take an outdated generated file for a
 source that can't be read

If a source exists, but can not be read, looking for it in bazel-bin etc. can
find outdated content of the same name; all its includes were then considered
known and dependencies that are needed suggested to be removed.
---
 bant/tool/dwyu.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index bd71eb1..ac14c35 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -17,8 +17,11 @@
 
 #include "bant/tool/dwyu.h"
 
+#include <unistd.h>
+
 #include <algorithm>
 #include <array>
+#include <cerrno>
 #include <cstddef>
 #include <iterator>
 #include <optional>
@@ -133,6 +136,13 @@ std::optional<DWYUGenerator::SourceFile> DWYUGenerator::TryOpenFile(
       result.content = std::move(*src_content);
       return result;
     }
+    // Only if the file is not there at all, look for it in the next location:
+    // a file that is there but can't be read has content we don't know, there
+    // might be outdated output with the same name in the other locations.
+    if (access(result.path.c_str(), F_OK) == 0 ||
+        (errno != ENOENT && errno != ENOTDIR)) {
+      return std::nullopt;
+    }
     result.is_generated = true;  // Only the first in list is direct source
   }
   return std::nullopt;
-- 
2.43.0


From 238a8965dc7a1f08d661662a827d36a373adcc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:26 +0000
Subject: [PATCH 17/32] fix: dwyu: only remove an alias if what it stands for
 is known and not alwayslink

A dependency that is not known (e.g. its BUILD file can not be read) is not
removed, but an alias to such a library was, as well as an alias to a library
with alwayslink.
---
 bant/tool/dwyu.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index ac14c35..a9d34af 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -173,6 +173,15 @@ void DWYUGenerator::InitKnownLibraries() {
 bool DWYUGenerator::IsAlwayslink(const BazelTarget &target) const {
   auto found = known_libs_.find(target);
   if (found == known_libs_.end()) return true;  // Unknown ? Be conservative.
+  // An alias is what it stands for, which might not be a library we know.
+  BazelTarget resolved = target;
+  for (size_t i = 0; found->second.rule == "alias"; ++i) {
+    auto actual = BazelTarget::ParseFrom(found->second.actual, resolved.package);
+    if (!actual.has_value() || i > known_libs_.size()) return true;
+    resolved = *actual;
+    found = known_libs_.find(resolved);
+    if (found == known_libs_.end()) return true;
+  }
   // TODO: follow all libs we depend on ?
   return found->second.alwayslink;
 }
-- 
2.43.0


From 4c5791a74ca2882bb3b75e7c8e567019d23efff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:50 +0000
Subject: [PATCH 18/32] fix: glob: '**/' only matches whole path elements

'**/a*.h' also matched bar.h.
---
 bant/util/glob-match-builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/util/glob-match-builder.cc b/bant/util/glob-match-builder.cc
index 83b4a12..080cb2d 100644
--- a/bant/util/glob-match-builder.cc
+++ b/bant/util/glob-match-builder.cc
@@ -59,7 +59,7 @@ static std::shared_ptr<PathMatcher> MakeFilenameMatcher(
     if (p.contains('*')) {
       const std::string escape_special = RE2::QuoteMeta(p);  // quote everything
       re_or_patterns.emplace_back(  // ... then unquote the pattern back
-        absl::StrReplaceAll(escape_special, {{R"(\*\*\/)", ".*/?"},  //
+        absl::StrReplaceAll(escape_special, {{R"(\*\*\/)", "(.*/)?"},  //
                                              {R"(\*)", "[^/]*"}}));
     } else {
       verbatim_match.insert(p);  // Simple and fast.
-- 
2.43.0


From 2eea627d9ac055507e0cb5bc0dae7a5ead926baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 19/32] fix: dwyu: don't remove a library whose replacement is
 not added

If several libraries provide included headers, one that is not in the minimal
set was removed even if the one chosen instead could not be added (testonly, or
a choice of several).
---
 bant/tool/dwyu.cc | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index a9d34af..63117ec 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -452,6 +452,10 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   // Grep for all includes they use to determine which deps we need
   auto deps_needed = DependenciesNeededBySources(target, build_file, sources,
                                                  &all_header_deps_known);
+  absl::btree_set<BazelTarget> header_providing;
+  for (const auto &alternatives : deps_needed) {
+    header_providing.insert(alternatives.begin(), alternatives.end());
+  }
   deps_needed = MinimizeDependencySet(deps_needed);
   OneToOne<BazelTarget, BazelTarget> checked_off_by;
   auto IsNeededInSourcesAndCheckOff = [&](const BazelTarget &target) -> bool {
@@ -471,6 +475,7 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   // them off the 'deps_needed' list.
   // Everything deps_needed
   // verify we actually need them. If not: remove.
+  std::vector<std::pair<std::string_view, BazelTarget>> to_remove;
   const auto deps = query::ExtractStringList(details.deps_list);
   for (const std::string_view dependency_target : deps) {
     const auto requested_target = BazelTarget::ParseFrom(dependency_target,  //
@@ -507,13 +512,13 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
     const bool potential_remove_suggestion_safe =
       all_header_deps_known && !IsAlwayslink(*requested_target);
 
-    // Emit the edits.
+    // Remember the edits.
     if (potential_remove_suggestion_safe) {
       static const LazyRE2 kExcludeVetoUserCommentRe{"#.*keep"};
       const auto line = project_.GetSurroundingLine(dependency_target);
       if (session_.flags().ignore_keep_comment ||
           !RE2::PartialMatch(line, *kExcludeVetoUserCommentRe)) {
-        emit_deps_edit_(EditRequest::kRemove, target, dependency_target, "");
+        to_remove.emplace_back(dependency_target, *requested_target);
       }
     } else if (!all_header_deps_known && session_.flags().verbose > 1) {
       project_.Loc(session_.info(), dependency_target)
@@ -523,6 +528,8 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   }
 
   // Now, if there is still something we need, add them.
+  bool all_needed_added = true;
+  std::vector<BazelTarget> to_add;
   for (const auto &need_add_alternatives : deps_needed) {
     // Only possible to auto-add if there is exactly one alternative.
     if (need_add_alternatives.size() > 1) {
@@ -532,17 +539,34 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
       for (const BazelTarget &target : need_add_alternatives) {
         session_.info() << "\t" << target << "\n";
       }
+      all_needed_added = false;
       continue;
     }
 
     const BazelTarget &need_add = *need_add_alternatives.begin();
     if (CanSee(target, need_add) && IsTestonlyCompatible(target, need_add)) {
-      emit_deps_edit_(EditRequest::kAdd, target, "",
-                      need_add.ToStringRelativeTo(target.package));
-    } else if (session_.flags().verbose > 1) {
-      project_.Loc(session_.info(), details.name)
-        << ": Would add " << need_add << ", but not visible\n";
+      to_add.push_back(need_add);
+    } else {
+      all_needed_added = false;
+      if (session_.flags().verbose > 1) {
+        project_.Loc(session_.info(), details.name)
+          << ": Would add " << need_add << ", but not visible\n";
+      }
+    }
+  }
+
+  // Emit the edits.
+  for (const auto &[dependency_target, requested_target] : to_remove) {
+    // If a library provides headers we include, it is only superfluous if all
+    // the libraries chosen instead will be there.
+    if (!all_needed_added && header_providing.contains(requested_target)) {
+      continue;
     }
+    emit_deps_edit_(EditRequest::kRemove, target, dependency_target, "");
+  }
+  for (const BazelTarget &need_add : to_add) {
+    emit_deps_edit_(EditRequest::kAdd, target, "",
+                    need_add.ToStringRelativeTo(target.package));
   }
 }
 
-- 
2.43.0


From c75bb9ca8483b65551de1d2e7ec352cf0deff49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 20/32] fix: dependency graph: a directory called BUILD is not
 the package's BUILD file

---
 bant/explore/dependency-graph.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index 22a025f..bdf8efa 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -64,7 +64,8 @@ std::optional<FilesystemPath> PathForPackage(Session &session,
   for (const std::string_view build_file : {"BUILD", "BUILD.bazel"}) {
     FilesystemPath test_path(start_path, build_file);
     ++stat.count;
-    if (test_path.can_read()) return test_path;
+    // Next to a BUILD.bazel, there can be a directory called 'BUILD'.
+    if (test_path.can_read() && !test_path.is_directory()) return test_path;
   }
   return std::nullopt;
 }
-- 
2.43.0


From e769fb442fc676125e26b39e84272603a9ce18f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 21/32] fix: don't cache result of a file that changes while it
 is analyzed

A file (or header it includes) edited between determining its content hash
and clang-tidy reading it resulted in findings of the new content being cached
for the old content; going back to the old content then reported these.
---
 scripts/run-clang-tidy-cached.cc | 95 ++++++++++++++++++++------------
 1 file changed, 61 insertions(+), 34 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index d5b369a..d4be30e 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -247,8 +247,12 @@ class ClangTidyRunner {
   // Given a work-queue in/out-file, process it. Using popen() for portability.
   // Empties work_queue. Returns number of files that could not be analyzed;
   // there is no result stored for these.
-  size_t RunClangTidyOn(ContentAddressedStore &output_store,
-                        std::list<filepath_contenthash_t> *work_queue) {
+  // The "is_unchanged" function tells if a work item still has the content it
+  // is queued with; otherwise, the result belongs to some other content.
+  size_t RunClangTidyOn(
+    ContentAddressedStore &output_store,
+    const std::function<bool(const filepath_contenthash_t &)> &is_unchanged,
+    std::list<filepath_contenthash_t> *work_queue) {
     if (work_queue->empty()) return 0;
     const int kJobs = std::thread::hardware_concurrency();
     std::cerr << work_queue->size() << " files to process...";
@@ -281,7 +285,7 @@ class ClangTidyRunner {
                                     "'" + clang_tidy_args_ + " 2>/dev/null";
         std::string output;
         const int r = RunCommand(command, &output);
-        const bool success = IsValidResult(r, output) &&
+        const bool success = IsValidResult(r, output) && is_unchanged(work) &&
                              StoreResult(RepairFilenameOccurences(output),
                                          final_out);
         if (!success) {
@@ -426,7 +430,6 @@ class FileGatherer {
     // Gather all *.cc and *.h files; remember content hashes of includes.
     static const std::regex include_re(std::string{kConfig.file_include_re});
     static const std::regex exclude_re(std::string{kConfig.file_exclude_re});
-    std::map<std::string, hash_t> header_hashes;
     for (const auto &dir_entry : fs::recursive_directory_iterator(root_dir_)) {
       const fs::path &p = dir_entry.path().lexically_normal();
       if (!fs::is_regular_file(p)) {
@@ -445,16 +448,14 @@ class FileGatherer {
       if (ConsiderExtension(extension)) {
         files_of_interest_.emplace_back(p, 0);  // <- hash to be filled later.
       }
-      // Remember content hash of header, so that we can make changed headers
-      // influence the hash of a file including this.
+      // Remember header, so that we can make changed headers influence the hash
+      // of a file including this.
       if (kConfig.revisit_if_any_include_changes &&
           IsIncludeExtension(extension)) {
         // Since the files might be included sloppily without prefix path,
-        // just keep track of the basename (but since there might be collisions,
-        // accomodate all of them by xor-ing the hashes; including the path, so
-        // that headers of same content don't cancel each other out).
-        const std::string just_basename = p.filename();
-        header_hashes[just_basename] ^= hashContent(file + '\n' + GetContent(p));
+        // just keep track of the basename (but there might be collisions, so
+        // accomodate all of them).
+        headers_by_basename_[p.filename()].push_back(file);
       }
     }
     std::cerr << files_of_interest_.size() << " files of interest.\n";
@@ -462,29 +463,9 @@ class FileGatherer {
     // Create content hash address for the cache and build list of work items.
     // If we want to revisit if headers changed, make hash dependent on them.
     std::list<filepath_contenthash_t> work_queue;
-    const std::regex inc_re(
-        R"""(#\s*include\s*"([^"\n]+)")""");
+    std::map<std::string, hash_t> header_hashes;
     for (filepath_contenthash_t &work_file : files_of_interest_) {
-      const auto content = GetContent(work_file.first);
-      // The findings also mention the path, so it is part of the address.
-      std::string fingerprint = work_file.first.string() + '\n' + content;
-      if (kConfig.revisit_if_any_include_changes) {
-        // Update the hash with all the hashes from all include files.
-        std::map<std::string, hash_t> included;
-        for (ReIt it(content.begin(), content.end(), inc_re); it != ReIt();
-             ++it) {
-          const std::string &header_path = (*it)[1].str();
-          const std::string header_basename = fs::path(header_path).filename();
-          const auto found = header_hashes.find(header_basename);
-          if (found != header_hashes.end()) {
-            included.insert(*found);
-          }
-        }
-        for (const auto &[name, hash] : included) {
-          fingerprint.append(name).append(ToHex(hash));
-        }
-      }
-      work_file.second = hashContent(fingerprint);
+      work_file.second = HashWithIncludes(work_file.first, &header_hashes);
       // Recreate if we don't have it yet or if it contains findings but is
       // older than build environment. Maybe something got fixed: revisit file.
       if (store_.NeedsRefresh(work_file, min_freshness)) {
@@ -494,6 +475,12 @@ class FileGatherer {
     return work_queue;
   }
 
+  // Has the file and all the includes the same content as in BuildWorkList() ?
+  bool IsUnchanged(const filepath_contenthash_t &work_file) const {
+    std::map<std::string, hash_t> header_hashes;
+    return HashWithIncludes(work_file.first, &header_hashes) == work_file.second;
+  }
+
   // Tally up findings for files of interest and assemble in one file.
   // (BuildWorkList() needs to be called first).
   size_t CreateReport(const fs::path &cache_dir, bool all_analyzed,
@@ -554,8 +541,43 @@ class FileGatherer {
   }
 
  private:
+  // Hash of the current content of given file. If we want to revisit if headers
+  // changed, it is dependent on them; their hashes are kept in "header_hashes".
+  hash_t HashWithIncludes(const fs::path &file,
+                          std::map<std::string, hash_t> *header_hashes) const {
+    static const std::regex inc_re(R"""(#\s*include\s*"([^"\n]+)")""");
+    const auto content = GetContent(file);
+    // The findings also mention the path, so it is part of the address.
+    std::string fingerprint = file.string() + '\n' + content;
+    if (kConfig.revisit_if_any_include_changes) {
+      // Update the hash with all the hashes from all include files.
+      std::map<std::string, hash_t> included;
+      for (ReIt it(content.begin(), content.end(), inc_re); it != ReIt();
+           ++it) {
+        const std::string &header_path = (*it)[1].str();
+        const std::string header_basename = fs::path(header_path).filename();
+        const auto found = headers_by_basename_.find(header_basename);
+        if (found == headers_by_basename_.end()) continue;
+        const auto &[hash, is_new] = header_hashes->emplace(header_basename, 0);
+        if (is_new) {
+          // Combine all headers of that name by xor-ing the hashes; including
+          // the path, so that headers of same content don't cancel each other.
+          for (const std::string &header : found->second) {
+            hash->second ^= hashContent(header + '\n' + GetContent(header));
+          }
+        }
+        included.insert(*hash);
+      }
+      for (const auto &[name, hash] : included) {
+        fingerprint.append(name).append(ToHex(hash));
+      }
+    }
+    return hashContent(fingerprint);
+  }
+
   ContentAddressedStore &store_;
   const std::string root_dir_;
+  std::map<std::string, std::vector<std::string>> headers_by_basename_;
   std::vector<filepath_contenthash_t> files_of_interest_;
 };
 }  // namespace
@@ -601,7 +623,12 @@ int main(int argc, char *argv[]) {
   auto work_list = cc_file_gatherer.BuildWorkList(build_env_latest_change);
 
   // Now the expensive part...
-  const size_t failed = runner.RunClangTidyOn(store, &work_list);
+  const size_t failed = runner.RunClangTidyOn(
+    store,
+    [&](const filepath_contenthash_t &f) {
+      return cc_file_gatherer.IsUnchanged(f);
+    },
+    &work_list);
 
   const std::string detailed_report = cache_prefix + "clang-tidy.out";
   const std::string summary = cache_prefix + "clang-tidy.summary";
-- 
2.43.0


From 32ded6e57144e97be55b6a23477a8fa6d8a2e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 22/32] fix: don't cache clang-tidy results with filenames not
 made relative

If bazel could not be started or was killed (e.g. Ctrl-C), names in all the
results of the run were not fixed, and they stayed like that in the cache. Look
up the execution root before starting; don't analyze if that is not possible.
---
 scripts/run-clang-tidy-cached.cc | 48 +++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index d4be30e..7e2c289 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -260,6 +260,15 @@ class ClangTidyRunner {
     const bool print_progress = isatty(STDERR_FILENO);
     if (!print_progress) std::cerr << "\n";
 
+    // Once for all results, and while Ctrl-C still ends us: without knowing what
+    // to fix, we'd store results with wrong filenames.
+    std::string bzroot;
+    if (kConfig.is_bazel_project && !GetBazelExecutionRoot(&bzroot)) {
+      std::cerr << "Could not run bazel.\n";
+      return work_queue->size();
+    }
+    const std::regex fix_paths_re = FixPathsRegex(bzroot);
+
     // Ctrl-C ends the clang-tidy processes, but we still want to do the report.
     const auto previous_sigint = std::signal(SIGINT, [](int) {});
     const auto previous_sigquit = std::signal(SIGQUIT, [](int) {});
@@ -285,9 +294,9 @@ class ClangTidyRunner {
                                     "'" + clang_tidy_args_ + " 2>/dev/null";
         std::string output;
         const int r = RunCommand(command, &output);
-        const bool success = IsValidResult(r, output) && is_unchanged(work) &&
-                             StoreResult(RepairFilenameOccurences(output),
-                                         final_out);
+        const bool success =
+          IsValidResult(r, output) && is_unchanged(work) &&
+          StoreResult(std::regex_replace(output, fix_paths_re, "$1"), final_out);
         if (!success) {
           const std::lock_guard<std::mutex> lock(queue_access_lock);
           std::cerr << work.first.string() << ": could not be analyzed.\n";
@@ -392,26 +401,25 @@ class ClangTidyRunner {
     return false;
   }
 
+  // Get bazel execution root; empty if this is not built with bazel. Returns
+  // false if we can't tell, as the command could not be started or was killed.
+  static bool GetBazelExecutionRoot(std::string *bzroot) {
+    const int r = RunCommand("bazel info execution_root 2>/dev/null", bzroot);
+    if (!bzroot->empty()) bzroot->pop_back();  // remove newline.
+    return r != -1 && WIFEXITED(r) && WEXITSTATUS(r) <= 127;  // NOLINT
+  }
+
   // Fix filename paths found in logfiles that are not emitted relative to
   // project root in the log - remove that prefix.
   // (bazel has its own, so if this is bazel, also bazel-specific fix up that).
-  static std::string RepairFilenameOccurences(const std::string &in_content) {
-    static const std::regex sFixPathsRe = []() {
-      std::string canonicalize_expr = "(^|\\n)(";  // fix names at start of line
-      if (kConfig.is_bazel_project) {
-        auto bzroot = GetCommandOutput("bazel info execution_root 2>/dev/null");
-        if (!bzroot.empty()) {
-          bzroot.pop_back();  // remove newline.
-          canonicalize_expr += RegexEscape(bzroot) + "/|";
-        }
-      }
-      canonicalize_expr += RegexEscape(fs::current_path().string()) + "/";
-      canonicalize_expr +=
-        ")?(\\./)?";  // Some start with, or have a trailing ./
-      return std::regex{canonicalize_expr};
-    }();
-
-    return std::regex_replace(in_content, sFixPathsRe, "$1");
+  static std::regex FixPathsRegex(const std::string &bzroot) {
+    std::string canonicalize_expr = "(^|\\n)(";  // fix names at start of line
+    if (!bzroot.empty()) {
+      canonicalize_expr += RegexEscape(bzroot) + "/|";
+    }
+    canonicalize_expr += RegexEscape(fs::current_path().string()) + "/";
+    canonicalize_expr += ")?(\\./)?";  // Some start with, or have a trailing ./
+    return std::regex{canonicalize_expr};
   }
 
   const std::string clang_tidy_;
-- 
2.43.0


From 777025ed557dbee41b7526a1d74ce6020aafd8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 23/32] fix: don't start further clang-tidy processes after
 Ctrl-C

A worker that happened not to be waiting for clang-tidy while the interrupt
arrived did not notice and continued with all remaining files.
---
 scripts/run-clang-tidy-cached.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 7e2c289..eeffca6 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -35,6 +35,7 @@ B=${0%%.cc}; [ "$B" -nt "$0" ] || c++ -std=c++17 -o"$B" "$0" && exec "$B" "$@";
 #include <unistd.h>
 
 #include <algorithm>
+#include <atomic>
 #include <cerrno>
 #include <cinttypes>
 #include <csignal>
@@ -270,8 +271,10 @@ class ClangTidyRunner {
     const std::regex fix_paths_re = FixPathsRegex(bzroot);
 
     // Ctrl-C ends the clang-tidy processes, but we still want to do the report.
-    const auto previous_sigint = std::signal(SIGINT, [](int) {});
-    const auto previous_sigquit = std::signal(SIGQUIT, [](int) {});
+    static std::atomic<bool> interrupted{false};
+    const auto set_interrupted = [](int) { interrupted = true; };
+    const auto previous_sigint = std::signal(SIGINT, set_interrupted);
+    const auto previous_sigquit = std::signal(SIGQUIT, set_interrupted);
 
     size_t failed_count = 0;
     std::mutex queue_access_lock;  // Also protects failed_count
@@ -280,7 +283,7 @@ class ClangTidyRunner {
         filepath_contenthash_t work;
         {
           const std::lock_guard<std::mutex> lock(queue_access_lock);
-          if (work_queue->empty()) return;
+          if (work_queue->empty() || interrupted) return;
           if (print_progress) {
             fprintf(stderr, "%5d\b\b\b\b\b", (int)(work_queue->size()));
           }
-- 
2.43.0


From 467d2aabdea2269b9da9b6075427fc008c450573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 24/32] fix: don't add testonly libraries to binaries, or
 through an alias

The check for testonly only knew libraries and tests, so that a cc_binary
was considered good to depend on anything. The name to be added might be an
alias, what counts is the library it stands for.
---
 bant/tool/dwyu-internal.h |  8 +++++++-
 bant/tool/dwyu.cc         | 35 ++++++++++++++++++++---------------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/bant/tool/dwyu-internal.h b/bant/tool/dwyu-internal.h
index da24ecb..96d9164 100644
--- a/bant/tool/dwyu-internal.h
+++ b/bant/tool/dwyu-internal.h
@@ -63,9 +63,15 @@ class DWYUGenerator {
   // in case later inspection is needed (e.g. for visibility).
   void InitKnownLibraries();
 
+  using KnownLibraries = absl::btree_map<BazelTarget, query::Result>;
+
+  // Find the library the target stands for in known_libs_.
+  KnownLibraries::const_iterator FindLibrary(const BazelTarget &target) const;
+
   // Various predicates to check targets to make decisions to include/exclude.
   bool IsAlwayslink(const BazelTarget &target) const;
   bool IsTestonlyCompatible(const BazelTarget &target,
+                            const query::Result &target_detail,
                             const BazelTarget &dep) const;
   bool CanSee(const BazelTarget &target, const BazelTarget &dep) const;
 
@@ -90,7 +96,7 @@ class DWYUGenerator {
   const EditCallback emit_deps_edit_;
   ProvidedFromTargetSet headers_from_libs_;
   ProvidedFromTarget files_from_genrules_;
-  absl::btree_map<BazelTarget, query::Result> known_libs_;
+  KnownLibraries known_libs_;
 };
 }  // namespace bant
 
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 63117ec..d5080a8 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -157,7 +157,7 @@ void DWYUGenerator::InitKnownLibraries() {
     query::FindTargets(parsed_package->ast,
                        {"cc_library", "alias",  // The common ones
                         "cc_proto_library", "grpc_cc_library",  // specialized
-                        "cc_test"},  // also indexing test for testonly check.
+                        "cc_test"},
                        [&](const query::Result &target) {
                          auto self =
                            current_package.QualifiedTarget(target.name);
@@ -171,34 +171,38 @@ void DWYUGenerator::InitKnownLibraries() {
 
 // Various predicates to check
 bool DWYUGenerator::IsAlwayslink(const BazelTarget &target) const {
-  auto found = known_libs_.find(target);
+  auto found = FindLibrary(target);
   if (found == known_libs_.end()) return true;  // Unknown ? Be conservative.
-  // An alias is what it stands for, which might not be a library we know.
+  // TODO: follow all libs we depend on ?
+  return found->second.alwayslink;
+}
+
+// An alias is what it stands for, which might not be a library we know.
+DWYUGenerator::KnownLibraries::const_iterator DWYUGenerator::FindLibrary(
+  const BazelTarget &target) const {
+  auto found = known_libs_.find(target);
   BazelTarget resolved = target;
-  for (size_t i = 0; found->second.rule == "alias"; ++i) {
+  for (size_t i = 0; i <= known_libs_.size(); ++i) {
+    if (found == known_libs_.end() || found->second.rule != "alias") {
+      return found;
+    }
     auto actual = BazelTarget::ParseFrom(found->second.actual, resolved.package);
-    if (!actual.has_value() || i > known_libs_.size()) return true;
+    if (!actual.has_value()) break;
     resolved = *actual;
     found = known_libs_.find(resolved);
-    if (found == known_libs_.end()) return true;
   }
-  // TODO: follow all libs we depend on ?
-  return found->second.alwayslink;
+  return known_libs_.end();
 }
 
 bool DWYUGenerator::IsTestonlyCompatible(const BazelTarget &target,
+                                         const query::Result &target_detail,
                                          const BazelTarget &dep) const {
-  const auto dependency_detail_found = known_libs_.find(dep);
+  const auto dependency_detail_found = FindLibrary(dep);
   if (dependency_detail_found == known_libs_.end()) return true;
 
   const query::Result &dep_detail = dependency_detail_found->second;
   if (!dep_detail.testonly) return true;  // non-testonly always compatible.
 
-  const auto target_detail_found = known_libs_.find(target);
-  if (target_detail_found == known_libs_.end()) {
-    return true;  // Should not happen, but let's not flag as issue.
-  }
-  const query::Result &target_detail = target_detail_found->second;
   if (target_detail.testonly || target_detail.rule == "cc_test") {
     return true;  // target and dependency are both tests.
   }
@@ -544,7 +548,8 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
     }
 
     const BazelTarget &need_add = *need_add_alternatives.begin();
-    if (CanSee(target, need_add) && IsTestonlyCompatible(target, need_add)) {
+    if (CanSee(target, need_add) &&
+        IsTestonlyCompatible(target, details, need_add)) {
       to_add.push_back(need_add);
     } else {
       all_needed_added = false;
-- 
2.43.0


From a15af34e37d6148c4946095cea7b09d7ed6f338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 25/32] fix: live with not being able to create prewarm threads

Without exceptions, there is no way to deal with std::thread failing, so bant
was aborted if e.g. the limit of processes was reached.
---
 bant/util/filesystem-prewarm-cache.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/bant/util/filesystem-prewarm-cache.cc b/bant/util/filesystem-prewarm-cache.cc
index 2ce6289..59bac7e 100644
--- a/bant/util/filesystem-prewarm-cache.cc
+++ b/bant/util/filesystem-prewarm-cache.cc
@@ -18,6 +18,7 @@
 #include "bant/util/filesystem-prewarm-cache.h"
 
 #include <dirent.h>
+#include <pthread.h>
 #include <unistd.h>
 
 #include <condition_variable>
@@ -33,7 +34,6 @@
 #include <string>
 #include <string_view>
 #include <system_error>
-#include <thread>
 #include <vector>
 
 #include "absl/container/flat_hash_set.h"
@@ -48,16 +48,19 @@ static constexpr int kPrewarmParallelism = 32;
 class ThreadPool {
  public:
   explicit ThreadPool(int count) {
+    // Not using std::thread, as that throws if no thread can be created. Having
+    // fewer, or even none, is fine.
     while (count--) {
-      threads_.push_back(new std::thread(&ThreadPool::Runner, this));
+      pthread_t thread;
+      if (pthread_create(&thread, nullptr, &ThreadPool::Start, this) != 0) break;
+      threads_.push_back(thread);
     }
   }
 
   ~ThreadPool() {
     CancelAllWork();
-    for (std::thread *t : threads_) {
-      t->join();
-      delete t;
+    for (const pthread_t t : threads_) {
+      pthread_join(t, nullptr);
     }
   }
 
@@ -76,6 +79,11 @@ class ThreadPool {
   }
 
  private:
+  static void *Start(void *pool) {
+    static_cast<ThreadPool *>(pool)->Runner();
+    return nullptr;
+  }
+
   void Runner() {
     for (;;) {
       std::unique_lock<std::mutex> l(lock_);
@@ -88,7 +96,7 @@ class ThreadPool {
     }
   }
 
-  std::vector<std::thread *> threads_;
+  std::vector<pthread_t> threads_;
   std::mutex lock_;
   std::condition_variable cv_;
   std::deque<std::function<void()>> work_queue_;
-- 
2.43.0


From 99ed2aa4172ff7ea48d01ce1cec340c462a910c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 26/32] fix: don't take linter sources, configuration or
 results that can't be read as empty

---
 scripts/run-clang-tidy-cached.cc | 104 ++++++++++++++++++++-----------
 1 file changed, 67 insertions(+), 37 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index eeffca6..ca86fcd 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -50,6 +50,7 @@ B=${0%%.cc}; [ "$B" -nt "$0" ] || c++ -std=c++17 -o"$B" "$0" && exec "$B" "$@";
 #include <list>
 #include <map>
 #include <mutex>
+#include <optional>
 #include <regex>
 #include <string>
 #include <string_view>
@@ -149,25 +150,25 @@ using hash_t = uint64_t;
 using filepath_contenthash_t = std::pair<fs::path, hash_t>;
 
 // Some helpers
-std::string GetContent(FILE *f) {
-  std::string result;
-  if (!f) return result;  // ¯\_(ツ)_/¯ best effort.
-  char buf[4096];
-  while (const size_t r = fread(buf, 1, sizeof(buf), f)) {
-    result.append(buf, r);
-  }
-  fclose(f);
-  return result;
-}
 
-std::string GetContent(const fs::path &f) {
+// Get complete content of file or nothing if there was an issue reading it.
+std::optional<std::string> GetContent(const fs::path &f) {
+  std::string result;
   FILE *file_to_read = fopen(f.string().c_str(), "r");
   if (!file_to_read) {
     fprintf(stderr, "%s: can't open: %s\n", f.string().c_str(),
             strerror(errno));
-    return {};  // ¯\_(ツ)_/¯ best effort.
+    return std::nullopt;
   }
-  return GetContent(file_to_read);
+  char buf[4096];
+  while (const size_t r = fread(buf, 1, sizeof(buf), file_to_read)) {
+    result.append(buf, r);
+  }
+  const bool success = (ferror(file_to_read) == 0);
+  if (!success) fprintf(stderr, "%s: can't read.\n", f.string().c_str());
+  fclose(file_to_read);
+  if (!success) return std::nullopt;
+  return result;
 }
 
 // Run command, store its standard output in "output". Returns wait-status of
@@ -211,7 +212,8 @@ class ContentAddressedStore {
     return content_dir / name_with_contenthash;
   }
 
-  std::string GetContentFor(const filepath_contenthash_t &c) const {
+  std::optional<std::string> GetContentFor(
+    const filepath_contenthash_t &c) const {
     return GetContent(PathFor(c));
   }
 
@@ -367,7 +369,9 @@ class ClangTidyRunner {
 
     // Make sure directory filename depends on .clang-tidy content.
     hash_t cache_unique_id = hashContent(version + clang_tidy_args_);
-    cache_unique_id ^= hashContent(GetContent(kClangConfigFile));
+    const auto config = GetContent(kClangConfigFile);
+    if (!config) exit(EXIT_FAILURE);
+    cache_unique_id ^= hashContent(*config);
     return cache_dir / fs::path(cache_prefix + "v" + major_version + "_" +
                                 ToHex(cache_unique_id, 8));
   }
@@ -474,29 +478,36 @@ class FileGatherer {
     // Create content hash address for the cache and build list of work items.
     // If we want to revisit if headers changed, make hash dependent on them.
     std::list<filepath_contenthash_t> work_queue;
-    std::map<std::string, hash_t> header_hashes;
+    header_hashes_t header_hashes;
+    std::vector<filepath_contenthash_t> readable_files;
     for (filepath_contenthash_t &work_file : files_of_interest_) {
-      work_file.second = HashWithIncludes(work_file.first, &header_hashes);
+      const auto hash = HashWithIncludes(work_file.first, &header_hashes);
+      if (!hash) continue;  // Can't know which result belongs to it.
+      work_file.second = *hash;
+      readable_files.push_back(work_file);
       // Recreate if we don't have it yet or if it contains findings but is
       // older than build environment. Maybe something got fixed: revisit file.
       if (store_.NeedsRefresh(work_file, min_freshness)) {
         work_queue.emplace_back(work_file);
       }
     }
+    all_readable_ = (readable_files.size() == files_of_interest_.size());
+    files_of_interest_ = std::move(readable_files);
     return work_queue;
   }
 
   // Has the file and all the includes the same content as in BuildWorkList() ?
   bool IsUnchanged(const filepath_contenthash_t &work_file) const {
-    std::map<std::string, hash_t> header_hashes;
+    header_hashes_t header_hashes;
     return HashWithIncludes(work_file.first, &header_hashes) == work_file.second;
   }
 
   // Tally up findings for files of interest and assemble in one file.
   // (BuildWorkList() needs to be called first).
-  size_t CreateReport(const fs::path &cache_dir, bool all_analyzed,
-                      std::string_view symlink_detail,
-                      std::string_view symlink_summary) const {
+  // Returns if there are no findings and there are results for all files.
+  bool CreateReport(const fs::path &cache_dir, bool all_analyzed,
+                    std::string_view symlink_detail,
+                    std::string_view symlink_summary) const {
     // Make it possible to keep independent reports for different invocation
     // locations (e.g. two checkouts of the same project) using the same cache.
     const std::string suffix = ToHex(hashContent(fs::current_path().string()));
@@ -506,9 +517,12 @@ class FileGatherer {
     // Assemble the separate outputs into a single file. Tally up per-check
     const std::regex check_re("(\\[[a-zA-Z0-9.,_+-]+\\])\n");
     std::map<std::string, int> checks_seen;
+    if (!all_readable_) all_analyzed = false;
     std::ofstream tidy_collect(tidy_outfile);
     for (const filepath_contenthash_t &f : files_of_interest_) {
-      const auto tidy = store_.GetContentFor(f);
+      const auto content = store_.GetContentFor(f);
+      if (!content) all_analyzed = false;
+      const std::string tidy = content.value_or("");
       if (!tidy.empty()) tidy_collect << f.first.string() << ":\n" << tidy;
       for (ReIt it(tidy.begin(), tidy.end(), check_re); it != ReIt(); ++it) {
         checks_seen[(*it)[1].str()]++;
@@ -548,16 +562,35 @@ class FileGatherer {
     fs::remove(symlink_summary, ignored_error);
     fs::create_symlink(tidy_summary, symlink_summary, ignored_error);
 
-    return checks_seen.size();
+    return checks_seen.empty() && all_analyzed;
   }
 
  private:
+  using header_hashes_t = std::map<std::string, std::optional<hash_t>>;
+
+  // Combined hash of all headers with the given name by xor-ing the hashes;
+  // including the path, so that headers of same content don't cancel each
+  // other. Nothing if one of them can't be read.
+  static std::optional<hash_t> HashHeaders(
+    const std::vector<std::string> &headers) {
+    hash_t result = 0;
+    for (const std::string &header : headers) {
+      const auto content = GetContent(header);
+      if (!content) return std::nullopt;
+      result ^= hashContent(header + '\n' + *content);
+    }
+    return result;
+  }
+
   // Hash of the current content of given file. If we want to revisit if headers
   // changed, it is dependent on them; their hashes are kept in "header_hashes".
-  hash_t HashWithIncludes(const fs::path &file,
-                          std::map<std::string, hash_t> *header_hashes) const {
+  // If it or one of its headers can't be read, there is no hash.
+  std::optional<hash_t> HashWithIncludes(const fs::path &file,
+                                         header_hashes_t *header_hashes) const {
     static const std::regex inc_re(R"""(#\s*include\s*"([^"\n]+)")""");
-    const auto content = GetContent(file);
+    const auto file_content = GetContent(file);
+    if (!file_content) return std::nullopt;
+    const std::string &content = *file_content;
     // The findings also mention the path, so it is part of the address.
     std::string fingerprint = file.string() + '\n' + content;
     if (kConfig.revisit_if_any_include_changes) {
@@ -569,15 +602,11 @@ class FileGatherer {
         const std::string header_basename = fs::path(header_path).filename();
         const auto found = headers_by_basename_.find(header_basename);
         if (found == headers_by_basename_.end()) continue;
-        const auto &[hash, is_new] = header_hashes->emplace(header_basename, 0);
-        if (is_new) {
-          // Combine all headers of that name by xor-ing the hashes; including
-          // the path, so that headers of same content don't cancel each other.
-          for (const std::string &header : found->second) {
-            hash->second ^= hashContent(header + '\n' + GetContent(header));
-          }
-        }
-        included.insert(*hash);
+        const auto &[hash, is_new] =
+          header_hashes->emplace(header_basename, std::nullopt);
+        if (is_new) hash->second = HashHeaders(found->second);
+        if (!hash->second) return std::nullopt;
+        included.emplace(hash->first, *hash->second);
       }
       for (const auto &[name, hash] : included) {
         fingerprint.append(name).append(ToHex(hash));
@@ -590,6 +619,7 @@ class FileGatherer {
   const std::string root_dir_;
   std::map<std::string, std::vector<std::string>> headers_by_basename_;
   std::vector<filepath_contenthash_t> files_of_interest_;
+  bool all_readable_ = true;  // All the files of interest could be read.
 };
 }  // namespace
 
@@ -643,8 +673,8 @@ int main(int argc, char *argv[]) {
 
   const std::string detailed_report = cache_prefix + "clang-tidy.out";
   const std::string summary = cache_prefix + "clang-tidy.summary";
-  const size_t tidy_count = cc_file_gatherer.CreateReport(
+  const bool all_clean = cc_file_gatherer.CreateReport(
     runner.project_cache_dir(), failed == 0, detailed_report, summary);
 
-  return tidy_count == 0 && failed == 0 ? EXIT_SUCCESS : EXIT_FAILURE;
+  return all_clean ? EXIT_SUCCESS : EXIT_FAILURE;
 }
-- 
2.43.0


From 6767ae750073674ea1d9e2a1bbc2bd9461be13ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:27 +0000
Subject: [PATCH 27/32] fix: take text after the last '*' of a target pattern
 literally

It was used as regular expression, so that e.g. //a:*.pb also matched x_pb, and
//a:*(x) was rejected.
---
 bant/types-bazel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 6ff6d93..3a785a9 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -212,7 +212,7 @@ static std::unique_ptr<RE2> GlobbingToRE2(std::string_view glob) {
     glob = glob.substr(pos + 1);
     is_first = false;
   }
-  absl::StrAppend(&assembled, glob);
+  absl::StrAppend(&assembled, RE2::QuoteMeta(glob));
   return std::make_unique<RE2>(assembled);
 }
 
-- 
2.43.0


From 690de19a6ba0cbe13d0c0275c1beef1104cfc423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:27 +0000
Subject: [PATCH 28/32] fix: headers written as ':foo.h' in libraries with
 include_prefix

They were provided as pre/fix/:foo.h.
---
 bant/explore/header-providers.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bant/explore/header-providers.cc b/bant/explore/header-providers.cc
index a2f36b8..0651b0f 100644
--- a/bant/explore/header-providers.cc
+++ b/bant/explore/header-providers.cc
@@ -129,7 +129,10 @@ static void IterateCCLibraryHeaders(const ParsedBuildFile &build_file,
 
       hdrs.insert(hdrs.end(), textual_hdrs.begin(), textual_hdrs.end());
       query::AppendStringList(cc_lib.public_hdrs, hdrs);  // grpc hack.
-      for (const std::string_view header : hdrs) {
+      for (std::string_view header : hdrs) {
+        if (header.starts_with(':')) {  // Also a way to name a local file.
+          header.remove_prefix(1);
+        }
         if (absl_string_view_skip && header == "string_view.h") continue;
 
         if (!cc_lib.include_prefix.empty()) {  // cc_library() dictates path.
-- 
2.43.0


From 1fba4ae38de97c069f5610b5502eb9a80665be0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:27 +0000
Subject: [PATCH 29/32] fix: don't hang in print -g with a regular expression
 that matches nothing

An empty match, e.g. with -g '.*', was found again at the same place forever.
---
 bant/frontend/print-visitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index 91bc682..6490fa3 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -50,6 +50,12 @@ void PrintVisitor::PrintMaybeHighlight(std::string_view print_str) {
   std::string_view highlight;
   if (highlight_re_) {
     while (RE2::FindAndConsume(&print_str, *highlight_re_, &highlight)) {
+      if (highlight.empty()) {  // Regex that also matches nothing: step over.
+        any_highlight_ = true;
+        if (print_str.empty()) break;
+        print_str.remove_prefix(1);
+        continue;
+      }
       out_ << std::string_view(last_end, highlight.data() - last_end);
       if (do_color_) out_ << kColor.highlight;
       out_ << highlight;
-- 
2.43.0


From 9e322c60b7cf5685d1d8cbf921511aa5fbc604b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 30/32] fix: write compilation database as valid JSON

Commas after the last entry and after the last argument made the output
of compilation-db unreadable for strict JSON parsers.
---
 bant/tool/compilation-db.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 3fd77f5..7e0303c 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -268,6 +268,7 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
     const std::string abs_src =
       package.FullyQualifiedFile(project.workspace(), src);
     if (!already_written->insert(abs_src).second) continue;
+    if (already_written->size() > 1) out << ",\n";  // JSON: only in-between
     out << "  {\n";
     out << "    " << q{"file"} << ": " << q{abs_src} << ",\n";
     out << "    " << q{"arguments"} << ": [\n";
@@ -276,10 +277,10 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
       out << "      " << q{option} << ",\n";
     }
     out << external_inc_json;
-    out << "      " << q{"-c"} << ", " << q{abs_src} << ",\n";
+    out << "      " << q{"-c"} << ", " << q{abs_src} << "\n";
     out << "     ],\n";
     out << "     " << q{"directory"} << ": " << q{cwd} << "\n";
-    out << "  },\n";
+    out << "  }";
   }
 }
 
@@ -321,6 +322,7 @@ static void WriteCompilationDB(Session &session, const ParsedProject &project,
                                 cwd, external_inc_json, &already_written, out);
       });
   }
+  if (!already_written.empty()) out << "\n";
   out << "]\n";
 }
 
-- 
2.43.0


From cc17aa74f3d8eecad4a02cf882da38d904c25bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 31/32] fix: names with slashes in labels without colon are
 local to the package

In a BUILD file, "sub/thing" is the target :sub/thing of this package, not
//sub/thing. Patterns on the command line are still accepted without //.
---
 bant/types-bazel.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 3a785a9..1e07cb9 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -109,7 +109,8 @@ std::string BazelPackage::FullyQualifiedFile(
   case 1: {
     package = parts[0];
     auto last_slash = package.find_last_of('/');
-    if (last_slash != std::string_view::npos) {
+    if (last_slash != std::string_view::npos &&
+        (package[0] == '/' || package[0] == '@')) {
       // //absl/strings to be interpreted as //absl/strings:strings
       target = package.substr(last_slash + 1);
     } else if (!package.empty() && package[0] == '@') {
@@ -218,6 +219,13 @@ static std::unique_ptr<RE2> GlobbingToRE2(std::string_view glob) {
 
 std::optional<BazelPattern> BazelPattern::ParseFrom(
   std::string_view pattern, const BazelPackage &context) {
+  // Different from labels, patterns don't need to start with // to be a package.
+  std::string absolute;
+  if (pattern.contains('/') && !pattern.contains(':') &&
+      !pattern.starts_with('/') && !pattern.starts_with('@')) {
+    absolute = absl::StrCat("//", pattern);
+    pattern = absolute;
+  }
   auto target = BazelTarget::ParseFrom(pattern, context);
   if (!target.has_value()) return std::nullopt;
 
-- 
2.43.0


From 459b009ca937e74fa34e08f0eff7f62fa22a4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 32/32] fix: @//foo in an external project is a target of the
 main project

---
 bant/types-bazel.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 1e07cb9..5e343bb 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -138,7 +138,7 @@ std::string BazelPackage::FullyQualifiedFile(
     return std::nullopt;
   }
   BazelPackage parsed_package = package_part.value();
-  if (parsed_package.project.empty()) {
+  if (parsed_package.project.empty() && package[0] != '@') {
     parsed_package.project = project;
   }
   return BazelTarget(parsed_package, target);
@@ -170,6 +170,9 @@ std::string BazelTarget::ToString() const {
 
 std::string BazelTarget::ToStringRelativeTo(
   const BazelPackage &other_package) const {
+  if (package.project.empty() && !other_package.project.empty()) {
+    return absl::StrCat("@", ToString());  // main project seen from external.
+  }
   if (other_package != package) return ToString();  // regular handling.
   return absl::StrCat(":", target_name);
 }
-- 
2.43.0

