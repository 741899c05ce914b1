From 5dd4dcb189ad7cd2c0b6714a3d32c974b77f0e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 01/73] fix: report output write errors that were detected
 before the final fclose()

A write that fails while stdio flushes a full buffer sets the stream's
error flag, and the following fclose() then succeeds: cc1 and cpp exited 0
with a truncated output.
---
 src/cc1/cc1.c   |  4 ++++
 src/cpp2/deps.c | 11 ++++++++---
 src/cpp2/main.c |  8 +++++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/cc1/cc1.c b/src/cc1/cc1.c
index 25c47c4..1d3a7df 100644
--- a/src/cc1/cc1.c
+++ b/src/cc1/cc1.c
@@ -621,6 +621,10 @@ static void output_term(const char *fname)
 	dynmap_free(cc1_outsections);
 	cc1_outsections = NULL;
 
+	/* a failed write may have been detected earlier, in which case
+	 * fclose() alone won't report it */
+	if(fflush(cc1_output.file) || ferror(cc1_output.file))
+		ccdie("write output (%s):", fname);
 	if(fclose(cc1_output.file))
 		ccdie("close output (%s):", fname);
 	cc1_output.file = NULL;
diff --git a/src/cpp2/deps.c b/src/cpp2/deps.c
index aa52f06..90e335f 100644
--- a/src/cpp2/deps.c
+++ b/src/cpp2/deps.c
@@ -82,8 +82,13 @@ void deps_dump(const char *file, const char *to)
 	}
 	fputc('\n', out);
 
-	if(out != stdout && fclose(out)){
-		fprintf(stderr, "close: %s: %s\n", to, strerror(errno));
-		exit(1);
+	/* stdout is checked and closed by main() */
+	if(out != stdout){
+		int failed = fflush(out) || ferror(out);
+
+		if(fclose(out) || failed){
+			fprintf(stderr, "close: %s: %s\n", to, strerror(errno));
+			exit(1);
+		}
 	}
 }
diff --git a/src/cpp2/main.c b/src/cpp2/main.c
index 12fc31b..c979a8e 100644
--- a/src/cpp2/main.c
+++ b/src/cpp2/main.c
@@ -678,9 +678,11 @@ defaul:
 	free(dirname_pop());
 	free(cpp_basefile);
 
-	errno = 0;
-	fclose(stdout);
-	if(errno)
+	/* a failed write may have been detected earlier, in which case
+	 * fclose() alone won't report it */
+	if(fflush(stdout) || ferror(stdout))
+		die("write():");
+	if(fclose(stdout))
 		die("close():");
 
 	return ret;
-- 
2.43.0


From 778deed1e2c355c4253c9e6ddfc9c908ad1782f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 02/73] fix: check that output copied to stdout was written

"ucc -E x.c", "ucc -MM x.c" and "ucc -S -o - x.c" never flushed (and so
never checked) the stdout they copied the result to, and exited 0 with a
truncated or missing output.
---
 src/ucc/ucc_ext.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ucc/ucc_ext.c b/src/ucc/ucc_ext.c
index 7c56190..8a4beec 100644
--- a/src/ucc/ucc_ext.c
+++ b/src/ucc/ucc_ext.c
@@ -237,8 +237,12 @@ void cat_fnames(char *fnin, const char *fnout, int append)
 	if(fclose(in))
 		die("close():");
 
-	if(fnout && fclose(out) == EOF)
-		die("close():");
+	if(fnout){
+		if(fclose(out) == EOF)
+			die("close():");
+	}else if(fflush(out) == EOF){
+		die("write():");
+	}
 }
 
 static int runner_single_arg(
-- 
2.43.0


From ca0a9e892e921943412636cbcb89c4fff5ae40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 03/73] fix: only remove regular files when a stage fails

A failing command's output was removed whatever it was, so "ucc --help",
"ucc -fsyntax-only bad.c" or "ucc -c -o /dev/null bad.c" deleted /dev/null
when run with enough permissions, and an output that is a symbolic link
was replaced.
---
 src/ucc/ucc_ext.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ucc/ucc_ext.c b/src/ucc/ucc_ext.c
index 8a4beec..dd92bb7 100644
--- a/src/ucc/ucc_ext.c
+++ b/src/ucc/ucc_ext.c
@@ -4,6 +4,7 @@
 #include <stdarg.h>
 
 #include <sys/types.h>
+#include <sys/stat.h>
 #include <unistd.h>
 #include <sys/wait.h>
 #include <sys/time.h>
@@ -30,6 +31,15 @@ void ucc_ext_cmds_show(int s)
 void ucc_ext_cmds_noop(int n)
 { noop = n; }
 
+static void remove_regular(const char *path)
+{
+	/* never remove special files, e.g. with -o /dev/null */
+	struct stat st;
+
+	if(lstat(path, &st) == 0 && S_ISREG(st.st_mode))
+		remove(path);
+}
+
 static int runner(struct cmdpath *path, char **args, int return_ec, const char *to_remove)
 {
 	pid_t pid;
@@ -130,7 +140,7 @@ static int runner(struct cmdpath *path, char **args, int return_ec, const char *
 
 			if(WIFEXITED(status) && (i = WEXITSTATUS(status)) != 0){
 				if(to_remove)
-					remove(to_remove);
+					remove_regular(to_remove);
 				if(!return_ec)
 					die("%s returned %d", path->path, i);
 			}else if(WIFSIGNALED(status)){
@@ -139,7 +149,7 @@ static int runner(struct cmdpath *path, char **args, int return_ec, const char *
 				fprintf(stderr, "%s caught signal %d\n", path->path, sig);
 
 				if(to_remove)
-					remove(to_remove);
+					remove_regular(to_remove);
 
 				/* exit with propagating status */
 				exit(128 + sig);
-- 
2.43.0


From 02dd23f749b40d55e11c37d205a491d38eed7065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 04/73] fix: don't let the shell parse output file names

Output names with spaces or shell metacharacters were pasted into a shell
command: the result went to a different file, or parts of the name were run
as commands.
---
 src/ucc/ucc_ext.c | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/ucc/ucc_ext.c b/src/ucc/ucc_ext.c
index dd92bb7..078f762 100644
--- a/src/ucc/ucc_ext.c
+++ b/src/ucc/ucc_ext.c
@@ -185,34 +185,18 @@ void execute(char *path, char **args)
 void rename_or_move(char *old, char *new)
 {
 	/* don't move, cat instead, since we can't move to /dev/null, for e.g. */
-	int len, i;
-	char *cmd, *p;
+	/* the file names are passed as arguments, so the shell doesn't parse them */
 	char *args[] = {
-		"cat", old, ">", new, NULL
+		"-c", "cat <\"$0\" >\"$1\"", old, new, NULL
 	};
-	char *fixed[3];
 	struct cmdpath shpath;
 
 	if(!strcmp(old, new))
 		return;
 
-	for(i = 0, len = 1; args[i]; i++)
-		len += strlen(args[i]) + 1; /* space */
-
-	p = cmd = umalloc(len);
-
-	for(i = 0; args[i]; i++)
-		p += sprintf(p, "%s ", args[i]);
-
-	fixed[0] = "-c";
-	fixed[1] = cmd;
-	fixed[2] = NULL;
-
 	shpath.path = "sh";
 	shpath.type = USE_PATH;
-	runner(&shpath, fixed, 0, new);
-
-	free(cmd);
+	runner(&shpath, args, 0, new);
 }
 
 void cat_fnames(char *fnin, const char *fnout, int append)
-- 
2.43.0


From 80f6a4451c07d19036ab74844ab0f76151226658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 05/73] fix: -E -o: honour the umask, replace old output, drop
 partial output

The output of "ucc -E -o x.i" was created with the private umask meant for
temporary files, was appended to whatever x.i held before when the first
input was unused, and was left truncated when writing it failed.
---
 src/ucc/ucc.c     |  7 +++++--
 src/ucc/ucc_ext.c | 20 +++++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index 2a5ab96..bceda8b 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -304,6 +304,7 @@ static void rename_files(struct cc_file *files, int nfiles, const char *output,
 {
 	const char mode_ch = MODE_ARG_CH(mode);
 	int i;
+	int append = 0;
 
 	for(i = 0; i < nfiles; i++){
 		/* path/to/input.c -> input.[os]
@@ -319,8 +320,10 @@ static void rename_files(struct cc_file *files, int nfiles, const char *output,
 		if(output){
 			if(mode == mode_preproc){
 				/* append to current */
-				if(files[i].preproc.fname)
-					cat_fnames(files[i].preproc.fname, output, i);
+				if(files[i].preproc.fname){
+					cat_fnames(files[i].preproc.fname, output, append);
+					append = 1;
+				}
 				continue;
 			}else if(mode == mode_compile && !strcmp(output, "-")){
 				/* -S -o- */
diff --git a/src/ucc/ucc_ext.c b/src/ucc/ucc_ext.c
index 078f762..4e36990 100644
--- a/src/ucc/ucc_ext.c
+++ b/src/ucc/ucc_ext.c
@@ -199,6 +199,17 @@ void rename_or_move(char *old, char *new)
 	runner(&shpath, args, 0, new);
 }
 
+static void cat_die(const char *fnout, const char *what)
+{
+	const int err = errno;
+
+	if(fnout)
+		remove_regular(fnout);
+
+	errno = err;
+	die("%s:", what);
+}
+
 void cat_fnames(char *fnin, const char *fnout, int append)
 {
 	FILE *in, *out;
@@ -218,7 +229,10 @@ void cat_fnames(char *fnin, const char *fnout, int append)
 		die("open %s:", fnin);
 
 	if(fnout){
+		/* this isn't a temporary file */
+		const mode_t old_umask = umask(orig_umask);
 		out = fopen(fnout, append ? "a" : "w");
+		umask(old_umask);
 		if(!out)
 			die("open %s:", fnout);
 	}else{
@@ -226,14 +240,14 @@ void cat_fnames(char *fnin, const char *fnout, int append)
 	}
 
 	if(cat(in, out))
-		die("write():");
+		cat_die(fnout, "write()");
 
 	if(fclose(in))
-		die("close():");
+		cat_die(fnout, "close()");
 
 	if(fnout){
 		if(fclose(out) == EOF)
-			die("close():");
+			cat_die(fnout, "close()");
 	}else if(fflush(out) == EOF){
 		die("write():");
 	}
-- 
2.43.0


From d5db0d577c15a65382311a4d9746c2a793ec08a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 06/73] fix: cpp: treat the argument after -MF as the
 dependency file only

It was also taken as an input/output file name, so -MF (and the driver's
-MD, which uses it) always failed.
---
 src/cpp2/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpp2/main.c b/src/cpp2/main.c
index c979a8e..c24c6ae 100644
--- a/src/cpp2/main.c
+++ b/src/cpp2/main.c
@@ -418,9 +418,9 @@ int main(int argc, char **argv)
 				}else if(!strcmp(argv[i] + 2, "D")){
 					emit |= DEPS;
 				}else if(!strcmp(argv[i] + 2, "F")){
-					depfname = argv[i + 1];
-					if(!depfname)
+					if(++i == argc)
 						goto usage;
+					depfname = argv[i];
 				}else{
 					goto usage;
 				}
-- 
2.43.0


From 80250c350713a147445e4dc22e06bef8f69f33c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 07/73] fix: cpp: name every user header, escaped for make, in
 dependency files

Headers included as <h.h> but found through -I were left out, names with
spaces, '#' or '$' were written in a form that make reads as something else,
and a self-including source was listed twice.
---
 src/cpp2/deps.c      | 49 +++++++++++++++++++++++++++++++++++++++++---
 src/cpp2/directive.c |  2 +-
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/cpp2/deps.c b/src/cpp2/deps.c
index 90e335f..4c5e448 100644
--- a/src/cpp2/deps.c
+++ b/src/cpp2/deps.c
@@ -27,6 +27,44 @@ void deps_add(const char *d)
 			/* not lost: */ustrdup(d), NULL);
 }
 
+static size_t deps_print(FILE *out, const char *name)
+{
+	/* print escaped, such that make sees the original name */
+	size_t len = 0, backslashes = 0;
+
+	for(; *name; name++){
+		switch(*name){
+			case '\\':
+				backslashes++;
+				break;
+
+			case ' ':
+			case '\t':
+				/* preceding backslashes need escaping too */
+				for(; backslashes > 0; backslashes--, len++)
+					fputc('\\', out);
+				/* fall */
+			case '#':
+				fputc('\\', out);
+				len++;
+				backslashes = 0;
+				break;
+
+			case '$':
+				fputc('$', out);
+				len++;
+				/* fall */
+			default:
+				backslashes = 0;
+		}
+
+		fputc(*name, out);
+		len++;
+	}
+
+	return len;
+}
+
 void deps_dump(const char *file, const char *to)
 {
 	/* replace ext if present, otherwise tac ".o" on */
@@ -65,20 +103,25 @@ void deps_dump(const char *file, const char *to)
 		obj = ustrprintf("%s.o", file);
 	}
 
-	fprintf(out, "%s: %s", obj, file);
-	len = strlen(obj) + strlen(file) + 2;
+	len = deps_print(out, obj);
+	fprintf(out, ": ");
+	len += deps_print(out, file) + 2;
 	free(obj);
 
 	for(i = 0; (obj = dynmap_key(char *, depset, i)); i++){
 		size_t this_len = 1 + strlen(obj);
 
+		if(!strcmp(obj, file))
+			continue;
+
 		len += this_len;
 		if(len >= LINE_MAX){
 			fprintf(out, " \\\n");
 			len = this_len;
 		}
 
-		fprintf(out, " %s", obj);
+		fputc(' ', out);
+		deps_print(out, obj);
 	}
 	fputc('\n', out);
 
diff --git a/src/cpp2/directive.c b/src/cpp2/directive.c
index b58fb51..22c7de6 100644
--- a/src/cpp2/directive.c
+++ b/src/cpp2/directive.c
@@ -302,7 +302,7 @@ static void handle_include(char *include_arg)
 		fprintf(stderr, " %s\n", final_path);
 	}
 
-	if(!is_angle)
+	if(!is_angle || !is_sysh)
 		deps_add(final_path);
 
 	preproc_push(f, final_path, is_sysh);
-- 
2.43.0


From 0599757a477839905acdf3e632c9050b71103acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:05 +0000
Subject: [PATCH 08/73] fix: don't run the driver's exit handlers in a child
 that fails to exec

The child deleted the parent's temporary files and flushed the parent's
stdio buffers a second time.
---
 src/ucc/ucc_ext.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ucc/ucc_ext.c b/src/ucc/ucc_ext.c
index 4e36990..361fee2 100644
--- a/src/ucc/ucc_ext.c
+++ b/src/ucc/ucc_ext.c
@@ -126,7 +126,10 @@ static int runner(struct cmdpath *path, char **args, int return_ec, const char *
 			umask(orig_umask);
 
 			(*execfn)(argv[0], argv);
-			die("execv(\"%s\"):", argv[0]);
+
+			/* no exit(): the temporary files and stdio buffers are the parent's */
+			fprintf(stderr, "%s: execv(\"%s\"): %s\n", argv0, argv[0], strerror(errno));
+			_exit(1);
 		}
 
 		default:
-- 
2.43.0


From 614012175337a747858cfba0d79b0eb363101339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:05 +0000
Subject: [PATCH 09/73] fix: wait for the command that was started, not for any
 child

If the process that became ucc had other children, one of them exiting was
taken for the end (and the status) of the current command.
---
 src/ucc/ucc_ext.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ucc/ucc_ext.c b/src/ucc/ucc_ext.c
index 361fee2..6ea5262 100644
--- a/src/ucc/ucc_ext.c
+++ b/src/ucc/ucc_ext.c
@@ -135,8 +135,9 @@ static int runner(struct cmdpath *path, char **args, int return_ec, const char *
 		default:
 		{
 			int status, i;
-			if(wait(&status) == -1)
-				die("wait()");
+			/* wait for this child only - there may be others, inherited via exec */
+			if(waitpid(pid, &status, 0) == -1)
+				die("waitpid():");
 
 			if(time_subcmds && gettimeofday(&time_end, NULL) < 0)
 				fprintf(stderr, "gettimeofday(): %s\n", strerror(errno));
-- 
2.43.0


From bc7315e32076c9bf56dabffe46353215fd0c798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 10/73] fix: don't define __ASSEMBLER__ for inputs that follow
 a .S file

-D__ASSEMBLER__=1 was added to the arguments shared by all inputs.
---
 src/ucc/ucc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index bceda8b..79762fc 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -273,12 +273,18 @@ static void gen_obj_file(
 	char *in = file->in.fname;
 
 	if(file->preproc.fname){
+		char **preproc_args = NULL;
+
+		dynarray_add_array(&preproc_args, args[mode_preproc]);
+
 		/* if we're preprocessing, but not cc1'ing, but we are as'ing,
 		 * it's an assembly language file */
 		if(file->preproc_asm)
-			dynarray_add(&args[mode_preproc], ustrdup("-D__ASSEMBLER__=1"));
+			dynarray_add(&preproc_args, (char *)"-D__ASSEMBLER__=1");
+
+		preproc(in, file->preproc.fname, preproc_args, 0);
 
-		preproc(in, file->preproc.fname, args[mode_preproc], 0);
+		dynarray_free(char **, preproc_args, NULL);
 
 		in = file->preproc.fname;
 	}
-- 
2.43.0


From 1fbfafa593968f2c84ab8071da3912107d40174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 11/73] fix: never write a default-named output over its own
 input

The output name was only derived for one-letter extensions: "ucc -c -x c
foo" (or foo.cpp, a., -) wrote the object over foo, and "ucc -S -x c a.s" over
a.s. Replace whatever extension there is, or add one, and refuse an output
that still is the input.
---
 src/ucc/ucc.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index 79762fc..b7e29e0 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <stddef.h>
 #include <string.h>
 #include <stdarg.h>
 #include <errno.h>
@@ -134,29 +135,36 @@ static void unlink_files(void)
 static char *expected_filename(const char *in, enum mode mode)
 {
 	const char *base = strrchr(in, '/');
-	size_t len;
+	const char *dot;
+	char ext = '\0';
+	struct stat st_in, st_out;
 	char *new;
 
 	if(!base++)
 		base = in;
 
-	new = ustrdup(base);
-	len = strlen(new);
-	if(len > 2 && new[len - 2] == '.'){
-		char ext;
-		switch(mode){
+	switch(mode){
 #define X(mode, desc, suffix) case mode_##mode: ext = suffix; break;
 #define ALIAS(...)
-			FILEMODES
+		FILEMODES
 #undef X
 #undef ALIAS
-			case mode_link:
-				assert(0 && "unreachable");
-		}
+		case mode_link:
+			assert(0 && "unreachable");
+	}
 
-		new[len - 1] = ext;
+	/* replace the extension, whatever it is - or add one */
+	dot = strrchr(base, '.');
+	new = ustrprintf("%.*s.%c", (int)(dot ? dot - base : (ptrdiff_t)strlen(base)), base, ext);
+
+	/* e.g. -x c -S abc.s */
+	if(stat(new, &st_out) == 0
+	&& stat(in, &st_in) == 0
+	&& st_in.st_dev == st_out.st_dev
+	&& st_in.st_ino == st_out.st_ino)
+	{
+		die("output would overwrite input file \"%s\"", in);
 	}
-	/* else stick with what we were given */
 
 	return new;
 }
-- 
2.43.0


From b9fbffb1f35517272ea86e5c24651fce867716b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 12/73] fix: cpp: reject an empty, signed or out of range
 $SOURCE_DATE_EPOCH

These were taken as 0 or as a time before 1970.
---
 src/cpp2/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cpp2/main.c b/src/cpp2/main.c
index c24c6ae..46bc023 100644
--- a/src/cpp2/main.c
+++ b/src/cpp2/main.c
@@ -1,5 +1,6 @@
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 #include <stdio.h>
 #include <errno.h>
 #include <stdarg.h>
@@ -205,10 +206,12 @@ static struct tm *current_time(int *const using_env)
 		if(errno)
 			die("couldn't parse $SOURCE_DATE_EPOCH:");
 
-		if(*end)
+		if(!isdigit((unsigned char)*source_date_epoch) || *end)
 			die("$SOURCE_DATE_EPOCH isn't a number");
 
 		t = epoch;
+		if(t < 0)
+			die("$SOURCE_DATE_EPOCH is out of range");
 	}else{
 		t = time(NULL);
 	}
-- 
2.43.0


From 25b394636dcb6f3f0d4086b5c43f51b83cd1c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 13/73] fix: cpp: use the calendar year in __DATE__

%G is the ISO week-based year, which is wrong around the new year.
---
 src/cpp2/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp2/main.c b/src/cpp2/main.c
index 46bc023..a299715 100644
--- a/src/cpp2/main.c
+++ b/src/cpp2/main.c
@@ -232,7 +232,7 @@ static void calctime(const char *fname)
 		die("strftime():");
 
 	FTIME(cpp_time, "\"%H:%M:%S\"");
-	FTIME(cpp_date, "\"%b %d %G\"");
+	FTIME(cpp_date, "\"%b %d %Y\"");
 
 	if(fname && !using_env){
 		struct stat st;
-- 
2.43.0


From 00d74a40e1104bc72315aba9aff94fde4df4f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 14/73] fix: cpp: diagnose a #define that ends early

"#define", "#define f(a" and "#define f(..." at the end of a line or file
dereferenced a null token; "#define f(a," was accepted.
---
 src/cpp2/directive.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cpp2/directive.c b/src/cpp2/directive.c
index 22c7de6..676e361 100644
--- a/src/cpp2/directive.c
+++ b/src/cpp2/directive.c
@@ -78,7 +78,7 @@ static void handle_define(token **tokens)
 {
 	char *name;
 
-	if(tokens[0]->tok != TOKEN_WORD)
+	if(!tokens[0] || tokens[0]->tok != TOKEN_WORD)
 		CPP_DIE("word expected");
 
 	NOOP_RET();
@@ -106,7 +106,7 @@ static void handle_define(token **tokens)
 				case TOKEN_ELIPSIS:
 					variadic = 1;
 					i++;
-					if(tokens[i]->tok != TOKEN_CLOSE_PAREN)
+					if(!tokens[i] || tokens[i]->tok != TOKEN_CLOSE_PAREN)
 						CPP_DIE("expected: close paren");
 					i++;
 					goto for_fin;
@@ -115,6 +115,8 @@ static void handle_define(token **tokens)
 					dynarray_add(&args, ustrdup(token_str(tokens[i])));
 
 					i++;
+					if(!tokens[i])
+						CPP_DIE("expected: comma or close paren");
 					switch(tokens[i]->tok){
 						case TOKEN_COMMA:
 							continue;
@@ -132,6 +134,7 @@ static void handle_define(token **tokens)
 					CPP_DIE("unexpected token %s", token_str(tokens[i]));
 			}
 		}
+		CPP_DIE("expected: close paren");
 for_fin:
 		if(!tokens[i]){
 			val = ustrdup("");
-- 
2.43.0


From 8d858030e43e0f3ee001bfc45c5302123fcf1538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 15/73] fix: cpp: diagnose "defined" without an identifier

"#if defined#" and "#if defined()" dereferenced a null pointer.
---
 src/cpp2/eval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpp2/eval.c b/src/cpp2/eval.c
index ac40867..0bdb159 100644
--- a/src/cpp2/eval.c
+++ b/src/cpp2/eval.c
@@ -531,6 +531,8 @@ static int defined_macro_find(char *ident)
 	int ret;
 
 	ident = word_find_any(ident);
+	if(!ident)
+		CPP_DIE("identifier expected for \"" DEFINED_STR "\"");
 	end = word_end(ident);
 	assert(end);
 	save = *end;
-- 
2.43.0


From 2cac5d5a60c38ecf914d2635a05e94b3c75c6458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:28 +0000
Subject: [PATCH 16/73] fix: -E -o: drop the earlier inputs' output when a
 later one can't be opened

---
 src/ucc/ucc_ext.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ucc/ucc_ext.c b/src/ucc/ucc_ext.c
index 6ea5262..e354261 100644
--- a/src/ucc/ucc_ext.c
+++ b/src/ucc/ucc_ext.c
@@ -203,7 +203,7 @@ void rename_or_move(char *old, char *new)
 	runner(&shpath, args, 0, new);
 }
 
-static void cat_die(const char *fnout, const char *what)
+static void cat_die(const char *fnout, const char *what, const char *fname)
 {
 	const int err = errno;
 
@@ -211,6 +211,8 @@ static void cat_die(const char *fnout, const char *what)
 		remove_regular(fnout);
 
 	errno = err;
+	if(fname)
+		die("%s %s:", what, fname);
 	die("%s:", what);
 }
 
@@ -230,7 +232,7 @@ void cat_fnames(char *fnin, const char *fnout, int append)
 
 	in  = fopen(fnin,  "r");
 	if(!in)
-		die("open %s:", fnin);
+		cat_die(append ? fnout : NULL, "open", fnin);
 
 	if(fnout){
 		/* this isn't a temporary file */
@@ -238,20 +240,20 @@ void cat_fnames(char *fnin, const char *fnout, int append)
 		out = fopen(fnout, append ? "a" : "w");
 		umask(old_umask);
 		if(!out)
-			die("open %s:", fnout);
+			cat_die(append ? fnout : NULL, "open", fnout);
 	}else{
 		out = stdout;
 	}
 
 	if(cat(in, out))
-		cat_die(fnout, "write()");
+		cat_die(fnout, "write()", NULL);
 
 	if(fclose(in))
-		cat_die(fnout, "close()");
+		cat_die(fnout, "close()", NULL);
 
 	if(fnout){
 		if(fclose(out) == EOF)
-			cat_die(fnout, "close()");
+			cat_die(fnout, "close()", NULL);
 	}else if(fflush(out) == EOF){
 		die("write():");
 	}
-- 
2.43.0


From 9e3535730902e17a0c0c7303f68bd7bf3ce9694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:26 +0000
Subject: [PATCH 17/73] fix: don't write an empty output for a .S file given
 with -S

---
 src/ucc/ucc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index b7e29e0..58ec364 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -325,7 +325,9 @@ static void rename_files(struct cc_file *files, int nfiles, const char *output,
 		 * directory names all trimmed */
 		char *new;
 
-		if(mode < FILE_IN_MODE(&files[i])){
+		if(mode < FILE_IN_MODE(&files[i])
+		|| (mode == mode_compile && files[i].preproc_asm))
+		{
 			fprintf(stderr, "input \"%s\" unused with -%c present\n",
 					files[i].in.fname, mode_ch);
 			continue;
-- 
2.43.0


From d1a1569cfb629c4d0261cfd8de8572f411b4d045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:17 +0000
Subject: [PATCH 18/73] fix: cc1: don't compute columns from a freed line
 buffer

---
 src/cc1/tokenise.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cc1/tokenise.c b/src/cc1/tokenise.c
index afef4b0..613ee17 100644
--- a/src/cc1/tokenise.c
+++ b/src/cc1/tokenise.c
@@ -582,10 +582,19 @@ int tok_at_label(void)
 			size_t const poff = p - buffer;
 			size_t const len = poff + newlen;
 
-			buffer = urealloc1(buffer, len + 1);
+			if(cc1_fopt.show_line){
+				/* the previous line has been kept */
+				char *const joined = umalloc(len + 1);
+				memcpy(joined, buffer, poff);
+				buffer = joined;
+			}else{
+				buffer = urealloc1(buffer, len + 1);
+			}
 			p = buffer + poff;
 			memcpy(p, new, newlen + 1);
-			update_bufferpos(p);
+			/* at the start of the new line, loc_now already says so.
+			 * don't look at the old bufferpos, it may have been free()d */
+			bufferpos = p;
 			return tok_at_label();
 		}
 		return 0;
-- 
2.43.0


From 7929a763b7fb1df1532933fc45cddbf420f196ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:18 +0000
Subject: [PATCH 19/73] fix: cc1: don't print an uninitialised buffer in the
 ignored attribute warning

---
 src/cc1/parse_type.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cc1/parse_type.c b/src/cc1/parse_type.c
index d4eb586..6f966f2 100644
--- a/src/cc1/parse_type.c
+++ b/src/cc1/parse_type.c
@@ -1883,6 +1883,7 @@ static void unused_attributes(decl *dfor, attribute **attr)
 
 	assert(!dfor || !dfor->spel);
 
+	*buf = '\0';
 	if(dfor && (sue = type_is_s_or_u_or_e(dfor->ref))){
 		snprintf(buf, sizeof buf,
 				" (place attribute after '%s')",
-- 
2.43.0


From db78d195ff58d8f2e0a3d8a365e9829c800e6b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:14 +0000
Subject: [PATCH 20/73] fix: cc1: check the allocation when looking for
 duplicate cases

---
 src/cc1/ops/stmt_switch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/ops/stmt_switch.c b/src/cc1/ops/stmt_switch.c
index 46af73a..890ffe7 100644
--- a/src/cc1/ops/stmt_switch.c
+++ b/src/cc1/ops/stmt_switch.c
@@ -37,7 +37,7 @@ static void fold_switch_dups(stmt *sw)
 	if(n == 0)
 		return;
 
-	vals = malloc(n * sizeof *vals);
+	vals = umalloc(n * sizeof *vals);
 
 	/* gather all switch values */
 	ITER_SWITCH(sw, titer){
-- 
2.43.0


From 5bb29deb23d6d5bf71fa9e786e557a2917a89aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:16 +0000
Subject: [PATCH 21/73] fix: cc1: don't dereference the value of a volatile
 expression statement

---
 src/cc1/ops/stmt_expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/stmt_expr.c b/src/cc1/ops/stmt_expr.c
index 67b92d5..ccfa054 100644
--- a/src/cc1/ops/stmt_expr.c
+++ b/src/cc1/ops/stmt_expr.c
@@ -63,7 +63,9 @@ void gen_stmt_expr(const stmt *s, out_ctx *octx)
 	const int is_volatile = type_qual(s->expr->tree_type) & qual_volatile
 		|| (lvalue && type_qual(lvalue->tree_type) & qual_volatile);
 
-	if(is_volatile){
+	/* a scalar has already been read, by its lvalue-to-rvalue conversion
+	 * - only an address remains to be read from for structs and unions */
+	if(is_volatile && type_is_s_or_u(s->expr->tree_type)){
 		assert(lvalue && "only lvalues can be the source of volatile");
 
 		out_force_read(octx, s->expr->tree_type, v);
-- 
2.43.0


From 39c9b05f1895eef780f773e04b661762c1cfc879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:16 +0000
Subject: [PATCH 22/73] fix: cc1: don't re-read a volatile object after
 assigning to it

---
 src/cc1/ops/expr_assign.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cc1/ops/expr_assign.c b/src/cc1/ops/expr_assign.c
index dffb2b1..eac332b 100644
--- a/src/cc1/ops/expr_assign.c
+++ b/src/cc1/ops/expr_assign.c
@@ -188,6 +188,16 @@ const out_val *gen_expr_assign(const expr *e, out_ctx *octx)
 
 	val = gen_expr(e->rhs, octx);
 	store = gen_expr(e->lhs, octx);
+
+	if(type_qual(e->lhs->tree_type) & qual_volatile
+	&& !expr_is_struct_bitfield(e->lhs))
+	{
+		/* a volatile lvalue isn't to be read by a store to it */
+		out_val_retain(octx, val);
+		out_store(octx, store, val);
+		return val;
+	}
+
 	out_val_retain(octx, store);
 
 	out_store(octx, store, val);
-- 
2.43.0


From d1e25b5ed1d522acd747de12c899fc526c3f0df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:16 +0000
Subject: [PATCH 23/73] fix: cc1: read the operand of a volatile post-increment
 once

---
 src/cc1/ops/expr_assign_compound.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index 92d3850..6baf18f 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -5,6 +5,7 @@
 #include "expr_op.h"
 
 #include "../type_nav.h"
+#include "../type_is.h"
 
 const char *str_expr_assign_compound(void)
 {
@@ -78,7 +79,8 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 	/* int += float
 	 * lea int, cast up to float, add, cast down to int, store
 	 */
-	const out_val *saved_post = NULL, *addr_lhs, *rhs, *lhs, *result;
+	const out_val *saved_post = NULL, *copy = NULL;
+	const out_val *addr_lhs, *rhs, *lhs, *result;
 
 	addr_lhs = gen_expr(e->lhs, octx);
 
@@ -87,6 +89,17 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 	if(e->assign_is_post){
 		out_val_retain(octx, addr_lhs); /* 3 */
 		saved_post = out_deref(octx, addr_lhs); /* addr_lhs=2, saved_post=1 */
+
+		if(type_qual(e->lhs->tree_type) & qual_volatile){
+			/* only read the lvalue once - both the original value and
+			 * the operand of the addition come from a copy of it */
+			copy = out_aalloct(octx, type_unqualify(e->lhs->tree_type));
+
+			out_val_retain(octx, copy); /* 2 */
+			out_val_retain(octx, copy); /* 3 */
+			out_store(octx, copy, saved_post); /* copy=2 */
+			saved_post = out_deref(octx, copy); /* copy=1 */
+		}
 	}
 
 	/* delay the dereference until after generating rhs.
@@ -96,7 +109,12 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 	rhs = gen_expr(e->rhs, octx);
 
 	/* here's the delayed dereference */
-	lhs = out_deref(octx, addr_lhs); /* addr_lhs=1 */
+	if(copy){
+		lhs = out_deref(octx, copy); /* copy=0 */
+		out_val_release(octx, addr_lhs); /* addr_lhs=1 */
+	}else{
+		lhs = out_deref(octx, addr_lhs); /* addr_lhs=1 */
+	}
 	if(e->bits.compoundop.upcast_ty)
 		lhs = out_cast(octx, lhs, e->bits.compoundop.upcast_ty, /*normalise_bool:*/1);
 
-- 
2.43.0


From 69269dd0748d684955595bac4da4a11e9f4929a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:16 +0000
Subject: [PATCH 24/73] fix: cc1: keep the stack 16-byte aligned below
 variable-length arrays

---
 src/cc1/out/alloca.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc1/out/alloca.c b/src/cc1/out/alloca.c
index 02172c7..030babe 100644
--- a/src/cc1/out/alloca.c
+++ b/src/cc1/out/alloca.c
@@ -15,6 +15,7 @@
 
 /* cc1_mstack_align */
 #include <stdarg.h>
+#include "../../util/platform.h" /* IS_32_BIT */
 #include "../cc1.h"
 
 static const out_val *alloca_stack_adj(
@@ -43,6 +44,10 @@ const out_val *out_alloca_push(
 	if(align < (unsigned)cc1_mstack_align)
 		align = cc1_mstack_align;
 
+	/* as with calls, %sp must be 16-byte aligned for SSE */
+	if(!IS_32_BIT() && align < 16)
+		align = 16;
+
 	octx->alloca_count++;
 
 	if(align == 1)
-- 
2.43.0


From 5540ce786eca962976b871a2d94421693408814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:16 +0000
Subject: [PATCH 25/73] fix: cc1: pass floating point constants in the argument
 register they belong to

---
 src/cc1/out/x86_64.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 6c4ec7e..8e847ba 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1218,9 +1218,8 @@ lea:
 		}
 
 		case V_CONST_F:
-			from = x86_load_fp(octx, from);
-			if(from->type != V_REG)
-				from = impl_load(octx, from, reg);
+			/* this may be a register, but not necessarily `reg` */
+			return impl_load(octx, x86_load_fp(octx, from), reg);
 	}
 
 	return v_new_reg(octx, from, from->t, reg);
-- 
2.43.0


From 93005d055a08201b14254b947b7aa5ea71476e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:16 +0000
Subject: [PATCH 26/73] fix: cc1: count the struct return pointer when placing
 stack arguments

---
 src/cc1/out/x86_64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 8e847ba..3ce9ca7 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -2451,7 +2451,9 @@ const out_val *impl_call(
 	if(arg_stack.bytesz > 0){
 		const out_val *stack_iter;
 
-		nints = nfloats = 0;
+		/* a hidden stret pointer takes up the first register */
+		nints = stret_kind == stret_memcpy;
+		nfloats = 0;
 
 		/* Rather than spilling the registers based on %rbp, we spill
 		 * them based as offsets from %rsp, that way they're always
-- 
2.43.0


From 9dfc749947dacc55a05acb83e833d29f0abeb955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:16 +0000
Subject: [PATCH 27/73] fix: cc1: keep the struct return pointer in its
 register while setting up arguments

---
 src/cc1/out/x86_64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 3ce9ca7..5c89bce 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -2351,6 +2351,7 @@ const out_val *impl_call(
 	const out_val **local_args = NULL;
 	const out_val *retval_stret;
 	const out_val *stret_spill;
+	const out_val *stret_arg = NULL;
 
 	const struct vreg *call_iregs;
 	unsigned n_call_iregs;
@@ -2510,7 +2511,8 @@ const out_val *impl_call(
 
 		out_val_retain(octx, stret_spill);
 		v_freeup_reg(octx, stret_reg);
-		out_flush_volatile(octx, v_to_reg_given(octx, stret_spill, stret_reg));
+		stret_arg = v_reg_apply_offset(
+				octx, v_to_reg_given(octx, stret_spill, stret_reg));
 	}
 
 	for(i = 0; i < nargs; i++){
@@ -2624,6 +2626,8 @@ const out_val *impl_call(
 			out_adealloc(octx, &arg_stack.vptr);
 	}
 
+	if(stret_arg)
+		out_val_consume(octx, stret_arg);
 	for(i = 0; i < nargs; i++)
 		out_val_consume(octx, local_args[i]);
 	dynarray_free(const out_val **, local_args, NULL);
-- 
2.43.0


From d3acecdbeead67fa3338ae63b6fc711a09509dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:22 +0000
Subject: [PATCH 28/73] fix: cc1: evaluate the sizes of a function's VLAs each
 time it is inlined

---
 src/cc1/inline.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/cc1/inline.c b/src/cc1/inline.c
index 535228a..b357a3b 100644
--- a/src/cc1/inline.c
+++ b/src/cc1/inline.c
@@ -25,6 +25,7 @@
 #include "inline.h"
 
 #include "cc1_out_ctx.h"
+#include "vla.h"
 
 #define INLINE_DEPTH_MAX 5
 #define INLINE_MAX_STACK_BYTES 128
@@ -48,7 +49,7 @@ struct inline_sym_map
 
 static void inline_vars_push(
 		struct cc1_out_ctx *cc1_octx, struct cc1_inline *save,
-		dynmap **const nested_label_map)
+		dynmap **const nested_label_map, dynmap **const outer_vlamap)
 {
 	struct cc1_inline *const new = &cc1_octx->inline_;
 
@@ -60,11 +61,16 @@ static void inline_vars_push(
 	/* current label context is saved */
 	*nested_label_map = cc1_octx->label_to_blk;
 	cc1_octx->label_to_blk = NULL;
+
+	/* each inlining evaluates its own vla sizes */
+	*outer_vlamap = cc1_octx->vlamap;
+	cc1_octx->vlamap = NULL;
 }
 
 static void inline_vars_pop(
 		struct cc1_out_ctx *cc1_octx, struct cc1_inline *saved,
-		dynmap **const nested_label_map)
+		dynmap **const nested_label_map, dynmap **const outer_vlamap,
+		out_ctx *octx)
 {
 	struct cc1_inline *const current = &cc1_octx->inline_;
 
@@ -77,6 +83,10 @@ static void inline_vars_pop(
 	dynmap_free(cc1_octx->label_to_blk);
 	cc1_octx->label_to_blk = *nested_label_map;
 	*nested_label_map = NULL;
+
+	vla_cleanup(octx);
+	cc1_octx->vlamap = *outer_vlamap;
+	*outer_vlamap = NULL;
 }
 
 static const out_val *merge_inline_rets(
@@ -201,12 +211,12 @@ static const out_val *gen_inline_func(
 	struct inline_sym_map *pushed_vals = umalloc(nargs * sizeof *pushed_vals);
 
 	struct out_dbg_lbl *dbg_endlbl = NULL;
-	dynmap *nested_label_map;
+	dynmap *nested_label_map, *outer_vlamap;
 
 	if(!cc1_octx->sym_inline_map)
 		cc1_octx->sym_inline_map = dynmap_new(sym *, NULL, sym_hash);
 
-	inline_vars_push(cc1_octx, &saved, &nested_label_map);
+	inline_vars_push(cc1_octx, &saved, &nested_label_map, &outer_vlamap);
 	cc1_octx->inline_.phi = out_blk_new(octx, "inline_phi");
 
 	if(cc1_gdebug != DEBUG_OFF){
@@ -244,7 +254,8 @@ static const out_val *gen_inline_func(
 	out_ctrl_transfer_make_current(octx, cc1_octx->inline_.phi);
 
 	merged_ret = merge_inline_rets(&cc1_octx->inline_, octx);
-	inline_vars_pop(cc1_octx, &saved, &nested_label_map);
+	inline_vars_pop(
+			cc1_octx, &saved, &nested_label_map, &outer_vlamap, octx);
 
 	return merged_ret;
 }
-- 
2.43.0


From 2235cd567f7c5af73888dba20f069b889c67f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:22 +0000
Subject: [PATCH 29/73] fix: cc1: promote the operands of ?:

---
 src/cc1/ops/expr_if.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cc1/ops/expr_if.c b/src/cc1/ops/expr_if.c
index 3ee9c13..65a7ab9 100644
--- a/src/cc1/ops/expr_if.c
+++ b/src/cc1/ops/expr_if.c
@@ -250,6 +250,9 @@ void fold_expr_if(expr *e, symtable *stab)
 
 		expr_check_sign(desc, *middle_op, e->rhs, &e->where);
 
+		expr_promote_int_if_smaller(middle_op, stab);
+		expr_promote_int_if_smaller(&e->rhs, stab);
+
 		e->tree_type = op_promote_types(
 				op_unknown,
 				middle_op, &e->rhs, stab,
-- 
2.43.0


From 149c367003d329d0dd0b443a4a0805fe4196119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:22 +0000
Subject: [PATCH 30/73] fix: cc1: give && and || with a constant right operand
 the type int

---
 src/cc1/ops/expr_op.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 63b94c5..89c72b6 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -1452,6 +1452,10 @@ static const out_val *op_shortcircuit(const expr *e, out_ctx *octx)
 		const out_val *rhs = gen_expr(e->rhs, octx);
 		rhs = out_normalise(octx, rhs);
 
+		/* a constant keeps its own type - the result is always a BOOLEAN_TYPE */
+		rhs = out_change_type(octx, rhs,
+				type_nav_btype(cc1_type_nav, BOOLEAN_TYPE));
+
 		out_ctrl_transfer(octx, landing, rhs, &blk_rhs, 1);
 	}
 
-- 
2.43.0


From d53b01537533a9e0d6470eef83e2dfbda0786fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:22 +0000
Subject: [PATCH 31/73] fix: cc1: zero every byte of objects whose size isn't a
 power of two

---
 src/cc1/out/mem.c | 54 ++++++++++++-----------------------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/src/cc1/out/mem.c b/src/cc1/out/mem.c
index fff6a7a..691174b 100644
--- a/src/cc1/out/mem.c
+++ b/src/cc1/out/mem.c
@@ -134,53 +134,25 @@ void out_memset(
 
 		out_val_consume(octx, emit_libc_call(octx, "memset", v_ptr, byte_val, nbytes_val));
 	}else{
-		size_t n, rem;
-		unsigned i;
-		type *tzero = type_nav_MAX_FOR(cc1_type_nav, nbytes, 0);
-
-		type *textra, *textrap;
+		size_t bytes_todo = nbytes;
 
 		assert(byte == 0 && "TODO: non-zero out_memset()");
 
-		if(!tzero)
-			tzero = type_nav_btype(cc1_type_nav, type_nchar);
-
-		n   = nbytes / type_size(tzero, NULL);
-		rem = nbytes % type_size(tzero, NULL);
-
-		if((textra = rem ? type_nav_MAX_FOR(cc1_type_nav, rem, 0) : NULL))
-			textrap = type_ptr_to(textra);
-
-		v_ptr = out_change_type(octx, v_ptr, type_ptr_to(tzero));
-
-#ifdef MEMSET_VERBOSE
-		out_comment("memset(%s, %d, %lu), using ptr<%s>, %lu steps",
-				e->expr->f_str(),
-				e->bits.builtin_memset.ch,
-				e->bits.builtin_memset.len,
-				type_to_str(tzero), n);
-#endif
-
-		for(i = 0; i < n; i++){
-			const out_val *v_zero = out_new_zero(octx, tzero);
-			const out_val *v_inc;
-
-			/* *p = 0 */
-			out_val_retain(octx, v_ptr);
-			out_store(octx, v_ptr, v_zero);
-
-			/* p++ (copied pointer) */
-			v_inc = out_new_l(octx, type_nav_btype(cc1_type_nav, type_intptr_t), 1);
-
-			v_ptr = out_op(octx, op_plus, v_ptr, v_inc);
+		while(bytes_todo > 0){
+			type *tzero = type_nav_MAX_FOR(cc1_type_nav, bytes_todo, 0);
+			const unsigned step_sz = type_size(tzero, NULL);
 
-			if(rem){
-				/* need to zero a little more */
-				v_ptr = out_change_type(octx, v_ptr, textrap);
-				v_zero = out_new_zero(octx, textra);
+			v_ptr = out_change_type(octx, v_ptr, type_ptr_to(tzero));
 
+			for(; bytes_todo >= step_sz; bytes_todo -= step_sz){
+				/* *p = 0 */
 				out_val_retain(octx, v_ptr);
-				out_store(octx, v_ptr, v_zero);
+				out_store(octx, v_ptr, out_new_zero(octx, tzero));
+
+				/* p++ (copied pointer) */
+				v_ptr = out_op(
+						octx, op_plus, v_ptr,
+						out_new_l(octx, type_nav_btype(cc1_type_nav, type_intptr_t), 1));
 			}
 		}
 
-- 
2.43.0


From ba75ebbca7da2b3aa3b6a30a6bbd8d1948ddbc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:22 +0000
Subject: [PATCH 32/73] fix: cc1: va_arg: only eight floating point arguments
 are in registers

---
 src/cc1/ops/__builtin_va.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/ops/__builtin_va.c b/src/cc1/ops/__builtin_va.c
index a2d197a..b1f985a 100644
--- a/src/cc1/ops/__builtin_va.c
+++ b/src/cc1/ops/__builtin_va.c
@@ -225,7 +225,7 @@ static const out_val *va_arg_gen_read(
 
 	/* FIXME: this needs to reference x86_64::N_CALL_REGS_{I,F} */
 	const int fp = type_is_floating(ty);
-	const unsigned max_reg_args_sz = 6 * 8 + (fp ? 16 * 16 : 0);
+	const unsigned max_reg_args_sz = 6 * 8 + (fp ? 8 * 16 : 0);
 	const unsigned ws = platform_word_size();
 	const out_val *valist, *gpoff_addr, *gpoff_val;
 	const int VALIST_OFFSET_TYPE = type_uint;
-- 
2.43.0


From 2864a807387e2d182af082f2b0eabc1941a7e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:22 +0000
Subject: [PATCH 33/73] fix: cc1: reserve space for structs returned with
 -fpcc-struct-return

---
 src/cc1/out/x86_64.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 5c89bce..b3c73d2 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -270,12 +270,6 @@ static enum stret x86_stret(type *ty, unsigned *stack_space)
 		return stret_scalar;
 	}
 
-	if(cc1_fopt.pcc_struct_return)
-		return stret_memcpy;
-
-	if(IS_32_BIT())
-		ICE("TODO: 32-bit stret");
-
 	sz = type_size(ty, NULL);
 
 	/* We unconditionally want to spill rdx:rax to the stack on return.
@@ -289,6 +283,12 @@ static enum stret x86_stret(type *ty, unsigned *stack_space)
 	if(stack_space)
 		*stack_space = sz;
 
+	if(cc1_fopt.pcc_struct_return)
+		return stret_memcpy;
+
+	if(IS_32_BIT())
+		ICE("TODO: 32-bit stret");
+
 	/* rdx:rax? */
 	if(sz > 2 * platform_word_size())
 		return stret_memcpy;
-- 
2.43.0


From e94be88e85396336f69f9f4a20e99ed7b9e6554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:22 +0000
Subject: [PATCH 34/73] fix: cc1: keep spills out of the stack space of a
 call's arguments

---
 src/cc1/out/x86_64.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index b3c73d2..4abde73 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -2358,7 +2358,7 @@ const out_val *impl_call(
 
 	struct
 	{
-		v_stackt bytesz;
+		v_stackt bytesz, start, max_before;
 		const out_val *vptr;
 		enum
 		{
@@ -2446,6 +2446,10 @@ const out_val *impl_call(
 
 			if(octx->stack_callspace < arg_stack.bytesz)
 				octx->stack_callspace = arg_stack.bytesz;
+
+			/* track how far the spills below get, see the end of this */
+			arg_stack.max_before = octx->max_stack_sz;
+			arg_stack.start = octx->max_stack_sz = octx->cur_stack_sz;
 		}
 	}
 
@@ -2570,6 +2574,17 @@ const out_val *impl_call(
 		/* else already pushed */
 	}
 
+	if(arg_stack.vptr){
+		/* the stacked arguments are at the bottom of the stack (%rsp), which
+		 * must be below anything that was spilt while setting them up */
+		v_stackt peak = octx->max_stack_sz;
+
+		if(peak > arg_stack.start)
+			peak += arg_stack.bytesz;
+
+		octx->max_stack_sz = MAX(arg_stack.max_before, peak);
+	}
+
 	{
 		funcargs *args = type_funcargs(fnty);
 		int need_float_count =
-- 
2.43.0


From 1298689f190af431f062abcae83d3c7b56f33232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:23 +0000
Subject: [PATCH 35/73] fix: cc1: va_start: step over every kind of named
 argument

---
 src/cc1/ops/__builtin_va.c | 30 +++++++++++++++++++++++-------
 src/cc1/out/out.h          |  2 ++
 src/cc1/out/x86_64.c       |  6 ++++++
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/cc1/ops/__builtin_va.c b/src/cc1/ops/__builtin_va.c
index b1f985a..a395f40 100644
--- a/src/cc1/ops/__builtin_va.c
+++ b/src/cc1/ops/__builtin_va.c
@@ -141,18 +141,34 @@ static void fold_va_start(expr *e, symtable *stab)
 		const int ws = platform_word_size();
 		struct
 		{
-			unsigned gp, fp;
-		} nargs = { 0, 0 };
+			unsigned gp, fp, stack;
+		} nargs = { 0, 0, 0 };
 		funcargs *const fa = type_funcargs(symtab_func(stab)->ref);
 
+		/* FIXME: this needs to reference x86_64::N_CALL_REGS_{I,F} */
+		const unsigned max_gp = 6, max_fp = 8;
+
 		funcargs_ty_calc(fa, &nargs.gp, &nargs.fp);
 
+		/* the address of a returned struct takes up a register too */
+		nargs.gp += out_func_is_stret(symtab_func(stab)->ref);
+
+		/* named arguments that didn't fit in registers */
+		if(nargs.gp > max_gp){
+			nargs.stack += nargs.gp - max_gp;
+			nargs.gp = max_gp;
+		}
+		if(nargs.fp > max_fp){
+			nargs.stack += nargs.fp - max_fp;
+			nargs.fp = max_fp;
+		}
+
 		/* need to set the offsets to act as if we've skipped over
-		 * n call regs, since we may already have some arguments used
+		 * n call regs, since we may already have some arguments used.
+		 * floating point registers are saved in 16-byte slots
 		 */
 		ADD_ASSIGN_VAL("gp_offset", nargs.gp * ws);
-		ADD_ASSIGN_VAL("fp_offset", (6 + nargs.fp) * ws);
-		/* FIXME: x86_64::N_CALL_REGS_I reference above */
+		ADD_ASSIGN_VAL("fp_offset", (max_gp + 2 * nargs.fp) * ws);
 
 		ADD_ASSIGN("reg_save_area", W(builtin_new_reg_save_area()));
 
@@ -162,8 +178,8 @@ static void fold_va_start(expr *e, symtable *stab)
 						W(builtin_new_frame_address(0)),
 						type_ptr_to(type_nav_btype(cc1_type_nav, type_nchar)),
 						1)),
-					/* *2 to step over saved-rbp and saved-ret */
-					W(expr_new_val(ws * 2)))));
+					/* +2 to step over saved-rbp and saved-ret */
+					W(expr_new_val(ws * (2 + nargs.stack))))));
 
 
 		fold_stmt(assigns);
diff --git a/src/cc1/out/out.h b/src/cc1/out/out.h
index e547aec..51f9fc2 100644
--- a/src/cc1/out/out.h
+++ b/src/cc1/out/out.h
@@ -150,6 +150,8 @@ ucc_wur const out_val *out_ctrl_merge(out_ctx *, out_blk *, out_blk *);
 ucc_wur const out_val *out_ctrl_merge_n(out_ctx *, out_blk **rets);
 
 /* function setup */
+int out_func_is_stret(type *);
+
 void out_func_prologue(
 		out_ctx *,
 		int nargs, int variadic, int stack_protector,
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 4abde73..3a76314 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -597,6 +597,12 @@ int impl_reg_savable(const struct vreg *r)
 	return 1;
 }
 
+int out_func_is_stret(type *rf)
+{
+	/* is the result returned through a hidden pointer argument? */
+	return x86_stret(type_func_call(rf, NULL), NULL) == stret_memcpy;
+}
+
 void impl_func_prologue_save_fp(out_ctx *octx)
 {
 	out_asm(octx, "pushq %%rbp");
-- 
2.43.0


From 1625f207d95f04fb4453936b73bab7f2c4b73a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:22 +0000
Subject: [PATCH 36/73] fix: cc1: balance register reservations when loading a
 struct for return

---
 src/cc1/out/impl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/impl.c b/src/cc1/out/impl.c
index aad1514..221562e 100644
--- a/src/cc1/out/impl.c
+++ b/src/cc1/out/impl.c
@@ -200,7 +200,10 @@ static void impl_overlay_mem_reg(
 
 	out_val_release(octx, ptr);
 
-	/* done, unreserve all registers */
+	/* done, unreserve all the registers we reserved:
+	 * for mem2reg, we may have finished before reaching `nregs' */
+	if(mem2reg)
+		nregs = reg_i + 1;
 	for(reg_i = 0; reg_i < nregs; reg_i++)
 		v_unreserve_reg(octx, &regs[reg_i]);
 }
-- 
2.43.0


From 7376830a1c10bf89e750879be34249c35dc33264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:40 +0000
Subject: [PATCH 37/73] fix: cc1: never evict the stack pointer when out of
 registers

---
 src/cc1/out/virt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/virt.c b/src/cc1/out/virt.c
index 65a60a1..acfa80c 100644
--- a/src/cc1/out/virt.c
+++ b/src/cc1/out/virt.c
@@ -308,7 +308,8 @@ static int v_unused_reg2(
 		&& this->bits.regoff.reg.is_float == fp
 		&& regtest(octx->current_fnty, &this->bits.regoff.reg))
 		{
-			if(!first)
+			/* never evict the stack or frame pointers */
+			if(!first && impl_reg_savable(&this->bits.regoff.reg))
 				first = this;
 			used[impl_reg_to_idx(&this->bits.regoff.reg)] = 1;
 		}
-- 
2.43.0


From d31cc1c0fe4ce93813689d991de4bd43b08af8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:24 +0000
Subject: [PATCH 38/73] fix: cc1: a value read from a bit-field isn't itself a
 bit-field

---
 src/cc1/out/out.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cc1/out/out.c b/src/cc1/out/out.c
index b732a37..74aadae 100644
--- a/src/cc1/out/out.c
+++ b/src/cc1/out/out.c
@@ -250,6 +250,14 @@ const out_val *out_deref(out_ctx *octx, const out_val *target)
 	if(bf.nbits && !done_out_deref)
 		dval = out_bitfield_to_scalar(octx, &bf, dval);
 
+	if(dval->bitfield.nbits){
+		/* the value we've read isn't a bitfield,
+		 * e.g. when it's used as an array index */
+		out_val *scalar = v_dup_or_reuse(octx, dval, dval->t);
+		scalar->bitfield.nbits = 0;
+		dval = scalar;
+	}
+
 	return dval;
 }
 
-- 
2.43.0


From 8c1fccd0b600509817d7801f8d8be07bd564756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:10 +0000
Subject: [PATCH 39/73] fix: cc1: don't overwrite the pointer to a struct while
 loading it for return

---
 src/cc1/out/impl.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/cc1/out/impl.c b/src/cc1/out/impl.c
index 221562e..88b19ca 100644
--- a/src/cc1/out/impl.c
+++ b/src/cc1/out/impl.c
@@ -123,6 +123,22 @@ static void impl_overlay_mem_reg(
 			mem2reg ? "reg" : "mem",
 			memsz);
 
+	if(mem2reg && memsz > pws && ptr->type == V_REG && !v_is_const_reg(ptr)){
+		/* loading the first register mustn't wipe the pointer that we load the
+		 * next one through */
+		struct vreg ptr_reg;
+
+		for(reg_i = 0; reg_i < nregs; reg_i++)
+			v_reserve_reg(octx, &regs[reg_i]);
+
+		v_unused_reg(octx, 1, 0, &ptr_reg, NULL);
+		ptr = v_to_reg_given(octx, ptr, &ptr_reg);
+
+		for(reg_i = 0; reg_i < nregs; reg_i++)
+			v_unreserve_reg(octx, &regs[reg_i]);
+		reg_i = 0;
+	}
+
 	if(!mem2reg){
 		/* reserve all registers so we don't accidentally wipe before the spill */
 		for(reg_i = 0; reg_i < nregs; reg_i++)
-- 
2.43.0


From 884be4a42974d640fe9b75bc388dd13f078371ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:04 +0000
Subject: [PATCH 40/73] fix: cc1: read a bit-field with its own signedness and
 width, not those of the first field in its storage

---
 src/cc1/out/bitfield.c | 7 ++++++-
 src/cc1/out/out.c      | 1 +
 src/cc1/out/val.h      | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/bitfield.c b/src/cc1/out/bitfield.c
index 6727c94..b024455 100644
--- a/src/cc1/out/bitfield.c
+++ b/src/cc1/out/bitfield.c
@@ -16,7 +16,7 @@ const out_val *out_bitfield_to_scalar(
 		const struct vbitfield *const bf,
 		const out_val *scalar)
 {
-	type *const ty = scalar->t;
+	type *ty = scalar->t;
 
 	assert(type_cmp(ty, bf->master_ty, 0) & TYPE_EQUAL_ANY);
 
@@ -31,6 +31,11 @@ const out_val *out_bitfield_to_scalar(
 			scalar,
 			out_new_l(octx, ty, ~(-1UL << bf->nbits)));
 
+	/* the storage is accessed using the type of its first field,
+	 * the value's size and signedness are those of the field itself */
+	ty = bf->field_ty;
+	scalar = out_cast(octx, scalar, ty, /*normalise:*/0);
+
 	/* if it's signed we need to sign extend
 	 * using a signed right shift to copy its MSB
 	 */
diff --git a/src/cc1/out/out.c b/src/cc1/out/out.c
index 74aadae..113a8b9 100644
--- a/src/cc1/out/out.c
+++ b/src/cc1/out/out.c
@@ -315,6 +315,7 @@ const out_val *out_set_bitfield(
 	mut->bitfield.off = off;
 	mut->bitfield.nbits = nbits;
 	mut->bitfield.master_ty = master_ty;
+	mut->bitfield.field_ty = type_is_ptr(val->t);
 
 	return mut;
 }
diff --git a/src/cc1/out/val.h b/src/cc1/out/val.h
index 4ecf62b..87cdd18 100644
--- a/src/cc1/out/val.h
+++ b/src/cc1/out/val.h
@@ -64,7 +64,7 @@ struct out_val
 
 	struct vbitfield
 	{
-		type *master_ty;
+		type *master_ty, *field_ty;
 		unsigned short off, nbits;
 	} bitfield; /* !!width iif bitfield */
 	unsigned char flags;
-- 
2.43.0


From 00c1946a76401607c1be12f997efbac347f8dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:17 +0000
Subject: [PATCH 41/73] fix: cc1: don't narrow bit-fields wider than int, or
 make full-width signed ones unsigned, when promoting them

---
 src/cc1/fold.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cc1/fold.c b/src/cc1/fold.c
index 875fd4b..83b8a0c 100644
--- a/src/cc1/fold.c
+++ b/src/cc1/fold.c
@@ -322,7 +322,10 @@ expr *fold_expr_lval2rval(expr *e, symtable *stab)
 			unsigned sint_nbits = uint_nbits - 1; /* we assume 2's complement: */
 			type *prom;
 
-			if(bf_nbits <= sint_nbits){
+			if(bf_nbits > uint_nbits){
+				/* wider than int, not promoted */
+				prom = NULL;
+			}else if(bf_nbits <= sint_nbits || type_is_signed(bitfield->ref)){
 				/* can be represented in int */
 				if(!type_is_signed(bitfield->ref)){
 					cc1_warn_at(&orig_e->where, bitfield_promotion,
@@ -334,7 +337,8 @@ expr *fold_expr_lval2rval(expr *e, symtable *stab)
 				prom = type_nav_btype(cc1_type_nav, type_uint);
 			}
 
-			fold_insert_casts(prom, &e, stab);
+			if(prom)
+				fold_insert_casts(prom, &e, stab);
 		}
 
 		if((enum_ty = type_is_enum(e->tree_type))){
-- 
2.43.0


From 53ca4bf149e456a96c5ed36ac60c3b35f46fefa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:24 +0000
Subject: [PATCH 42/73] fix: cc1: the value of a compound assignment to a
 bit-field is the bit-field's

---
 src/cc1/ops/expr_assign_compound.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index 6baf18f..bf5198d 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -124,6 +124,13 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 	if(e->bits.compoundop.upcast_ty) /* need to cast back down to store */
 		result = out_cast(octx, result, e->tree_type, /*normalise_bool:*/1);
 
+	if(!saved_post && expr_is_struct_bitfield(e->lhs)){
+		/* the value is that of the bit-field after the store */
+		out_val_retain(octx, addr_lhs);
+		out_store(octx, addr_lhs, result);
+		return out_deref(octx, addr_lhs);
+	}
+
 	if(!saved_post)
 		out_val_retain(octx, result);
 	out_store(octx, addr_lhs, result);
-- 
2.43.0


From 5b76329900c1dfa85a80f680b9c88604e724cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:45 +0000
Subject: [PATCH 43/73] fix: cc1: evaluate && and || on floating constants
 instead of aborting

---
 src/cc1/ops/expr_op.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 89c72b6..04043c2 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -137,6 +137,17 @@ static enum eval_truth collapsed_consty_to_truth(const collapsed_consty *k)
 	return k->is_weak ? EVAL_UNKNOWN : k->lbl || k->offset ? EVAL_TRUE : EVAL_FALSE;
 }
 
+static enum eval_truth consty_to_truth(const consty *k)
+{
+	collapsed_consty c;
+
+	if(k->type == CONST_NUM && K_FLOATING(k->bits.num))
+		return k->bits.num.val.f ? EVAL_TRUE : EVAL_FALSE;
+
+	collapse_const(&c, k);
+	return collapsed_consty_to_truth(&c);
+}
+
 static void eval_truth_to_consty(enum eval_truth t, consty *k, expr *e)
 {
 	switch(t){
@@ -424,6 +435,21 @@ static void const_op_num(
 		type_is_floating(e->lhs->tree_type)
 	};
 
+	if((fp[0] || (rhs && type_is_floating(e->rhs->tree_type)))
+	&& (e->bits.op.op == op_andsc || e->bits.op.op == op_orsc))
+	{
+		eval_truth_to_consty(
+				eval_shortcircuit(
+					e->bits.op.op,
+					consty_to_truth(lhs),
+					consty_to_truth(rhs)),
+				k, e);
+
+		if(!k->nonstandard_const)
+			k->nonstandard_const = e;
+		return;
+	}
+
 	if(rhs){
 		int valid;
 
@@ -451,7 +477,6 @@ static void const_shortcircuit(
 		const consty *lhs,
 		const consty *rhs)
 {
-	collapsed_consty clhs;
 	enum eval_truth truth;
 
 	if(!CONST_AT_COMPILE_TIME(lhs->type))
@@ -465,11 +490,9 @@ static void const_shortcircuit(
 	 * otherwise, lhs is constant, rhs is not */
   assert(!CONST_AT_COMPILE_TIME(rhs->type));
 
-	collapse_const(&clhs, lhs);
-
 	truth = eval_shortcircuit(
 			e->bits.op.op,
-			collapsed_consty_to_truth(&clhs),
+			consty_to_truth(lhs),
 			EVAL_UNKNOWN);
 
 	eval_truth_to_consty(truth, k, e);
-- 
2.43.0


From 0de59fbfaeb082e5b48ea6514e03f6564fc64f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:11 +0000
Subject: [PATCH 44/73] fix: cc1: don't truncate a constant condition of ?: to
 int

---
 src/cc1/ops/expr_if.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_if.c b/src/cc1/ops/expr_if.c
index 65a7ab9..cf40467 100644
--- a/src/cc1/ops/expr_if.c
+++ b/src/cc1/ops/expr_if.c
@@ -39,7 +39,7 @@ static void fold_const_expr_if(expr *e, consty *k)
 		case CONST_NUM:
 		{
 			numeric *n = &consts[0].bits.num;
-			res = n->suffix & VAL_FLOATING ? n->val.f : n->val.i;
+			res = n->suffix & VAL_FLOATING ? n->val.f != 0 : n->val.i != 0;
 			break;
 		}
 		case CONST_ADDR:
-- 
2.43.0


From 1b351cdb3b19027f6fbb9c01bcca2fb0afa699eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:11 +0000
Subject: [PATCH 45/73] fix: cc1: compare the offsets when folding == and != on
 addresses within one object

---
 src/cc1/ops/expr_op.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 04043c2..85bc4ce 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -404,7 +404,7 @@ static void const_op_num_int(
 					if(l.is_weak || r.is_weak){
 						CONST_FOLD_NO(k, e);
 					}else{
-						int same = !strcmp(l.lbl, r.lbl);
+						int same = !strcmp(l.lbl, r.lbl) && l.offset == r.offset;
 						k->type = CONST_NUM;
 
 						k->bits.num.val.i = ((e->bits.op.op == op_eq) == same);
-- 
2.43.0


From a2fd729d3ea3743ddc3a0205c657e994873df4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:42 +0000
Subject: [PATCH 46/73] fix: cc1: keep integer constants as values of their
 type

Constants of unsigned types were left sign-extended and vice-versa, and
comparisons of constants were done in the type of their result, so folding
casts and operations on them gave the wrong value. Likewise convert
constants to floating point according to the type's signedness.
---
 src/cc1/const.c         | 22 +++-------------------
 src/cc1/num.c           | 18 ++++++++++++++++++
 src/cc1/num.h           |  6 ++++++
 src/cc1/ops/expr_cast.c |  6 +++---
 src/cc1/ops/expr_op.c   |  5 ++++-
 src/cc1/out/new.c       |  2 +-
 src/cc1/out/op.c        |  3 ++-
 src/cc1/out/out.c       | 16 ++++++++++++++--
 8 files changed, 51 insertions(+), 27 deletions(-)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index 6607d01..bf154c7 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -249,25 +249,9 @@ integral_t const_op_exec(
 			break;
 	}
 
-	if(!is_signed){
-		/* need to apply proper wrap-around */
-		integral_t max = type_max(arithty, NULL);
-
-		if(max == NUMERIC_T_MAX){
-			/* handling integral_t:s, already done */
-		}else if(result > max){
-			if(op_increases(op)){
-				/* result = 256 -> 256 - (255 + 1) -> 0 */
-
-				result = result - (max + 1);
-			}else{
-				/* (assuming integral_t max = 65536)
-				 * result = 65536 -> 65536 - 65536 + 256 -> 256 */
-
-				result = result - NUMERIC_T_MAX + max;
-			}
-		}
-	}
+	/* need to apply proper wrap-around */
+	if(!is_signed && !op_returns_bool(op))
+		result = integral_in_type(result, arithty);
 
 	return result;
 }
diff --git a/src/cc1/num.c b/src/cc1/num.c
index 93f7768..be96929 100644
--- a/src/cc1/num.c
+++ b/src/cc1/num.c
@@ -130,6 +130,24 @@ integral_t integral_truncate(
 			sign_extended);
 }
 
+integral_t integral_in_type(integral_t val, type *ty)
+{
+	sintegral_t sign_ext;
+	integral_t zero_ext;
+
+	if(!type_is_integral(ty))
+		return val;
+
+	zero_ext = integral_truncate(val, type_size(ty, NULL), &sign_ext);
+
+	return type_is_signed(ty) ? (integral_t)sign_ext : zero_ext;
+}
+
+int floating_is_neg_zero(floating_t f)
+{
+	return f == 0 && 1 / f < 0;
+}
+
 int integral_high_bit(integral_t val, type *ty)
 {
 	if(type_is_signed(ty)){
diff --git a/src/cc1/num.h b/src/cc1/num.h
index cf0c544..2c342b7 100644
--- a/src/cc1/num.h
+++ b/src/cc1/num.h
@@ -69,6 +69,12 @@ integral_t integral_truncate_bits(
 		unsigned bits,
 		sintegral_t *signed_v);
 
+/* the value of `val' as it is held by `ty', i.e. truncated to the type's size
+ * and then sign or zero extended to an integral_t */
+integral_t integral_in_type(integral_t val, struct type *ty);
+
+int floating_is_neg_zero(floating_t);
+
 int integral_high_bit(const integral_t val, struct type *ty);
 
 #endif
diff --git a/src/cc1/ops/expr_cast.c b/src/cc1/ops/expr_cast.c
index ecb6b52..64b3be5 100644
--- a/src/cc1/ops/expr_cast.c
+++ b/src/cc1/ops/expr_cast.c
@@ -44,7 +44,7 @@ static void fold_cast_num(expr *const e, numeric *const num)
 		}else{
 			UCC_ASSERT(K_INTEGRAL(*num), "i/f mismatch types");
 			/* int -> float */
-			if(num->suffix & VAL_UNSIGNED){
+			if(!type_is_signed(expr_cast_child(e)->tree_type)){
 				num->val.f = num->val.i;
 			}else{
 				/* force a signed conversion, long long to long double */
@@ -202,7 +202,7 @@ static integral_t convert_integral_to_integral_warn(
 
 	if(sz_in == sz_out){
 		/* representable, don't warn */
-		return ret;
+		return integral_in_type(integral_in_type(in, tin), tout);
 	}
 
 	if(do_warn){
@@ -232,7 +232,7 @@ static integral_t convert_integral_to_integral_warn(
 		}
 	}
 
-	return ret;
+	return integral_in_type(integral_in_type(in, tin), tout);
 }
 
 static void check_qual_rm(type *ptr_lhs, type *ptr_rhs, expr *e)
diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 85bc4ce..2c45c6a 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -327,7 +327,10 @@ static void const_op_num_int(
 
 			int_r = const_op_exec(
 					l.offset, rhs ? &r.offset : NULL,
-					e->bits.op.op, e->tree_type, &err);
+					e->bits.op.op,
+					/* comparisons are done in the operands' type */
+					op_returns_bool(e->bits.op.op) ? e->lhs->tree_type : e->tree_type,
+					&err);
 
 			if(SHOW_CONST_OP){
 				char tbufs[2][TYPE_STATIC_BUFSIZ];
diff --git a/src/cc1/out/new.c b/src/cc1/out/new.c
index 321002e..6d6a0ae 100644
--- a/src/cc1/out/new.c
+++ b/src/cc1/out/new.c
@@ -86,7 +86,7 @@ out_val *out_new_num(out_ctx *octx, type *ty, const numeric *n)
 		v->bits.val_f = n->val.f;
 	}else{
 		v->type = V_CONST_I;
-		v->bits.val_i = n->val.i;
+		v->bits.val_i = integral_in_type(n->val.i, ty);
 	}
 
 	return v;
diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 1201750..281395d 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -424,7 +424,8 @@ const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 					case op_ ## op: {                        \
 						out_val *dup = v_dup_or_reuse(         \
 								octx, val, val->t);                \
-						dup->bits.val_i = tok dup->bits.val_i; \
+						dup->bits.val_i = integral_in_type(     \
+								tok dup->bits.val_i, dup->t);      \
 						return dup;                            \
 					}
 
diff --git a/src/cc1/out/out.c b/src/cc1/out/out.c
index 113a8b9..ed5ed4c 100644
--- a/src/cc1/out/out.c
+++ b/src/cc1/out/out.c
@@ -109,6 +109,17 @@ const char *out_val_str(const out_val *v, int deref)
 	return impl_val_str(v, deref);
 }
 
+static const out_val *v_change_type(out_ctx *octx, const out_val *val, type *ty)
+{
+	out_val *mut = v_dup_or_reuse(octx, val, ty);
+
+	/* keep constants as a value of their type */
+	if(mut->type == V_CONST_I)
+		mut->bits.val_i = integral_in_type(mut->bits.val_i, ty);
+
+	return mut;
+}
+
 const out_val *out_cast(out_ctx *octx, const out_val *val, type *to, int normalise_bool)
 {
 	type *from = val->t;
@@ -202,13 +213,14 @@ const out_val *out_cast(out_ctx *octx, const out_val *val, type *to, int normali
 		}
 	}
 
-	return v_dup_or_reuse(octx, val, to);
+	return v_change_type(octx, val, to);
 }
 
 const out_val *out_change_type(out_ctx *octx, const out_val *val, type *ty)
 {
 	out_val *mut = v_mutable_copy(octx, val);
-	return v_dup_or_reuse(octx, mut, ty);
+
+	return v_change_type(octx, mut, ty);
 }
 
 const out_val *out_deref(out_ctx *octx, const out_val *target)
-- 
2.43.0


From ff66d43f85bbbdfcb092e075a0fdd6cdb9ef71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:42 +0000
Subject: [PATCH 47/73] fix: cc1: don't lose the sign of negative zero

---
 src/cc1/decl_init.c  | 15 +++++++++++++++
 src/cc1/out/x86_64.c | 13 ++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/cc1/decl_init.c b/src/cc1/decl_init.c
index 991199b..47a169c 100644
--- a/src/cc1/decl_init.c
+++ b/src/cc1/decl_init.c
@@ -259,9 +259,24 @@ static int decl_init_is_zero_fold(decl_init *dinit, symtable *symtab)
 
 	switch(dinit->type){
 		case decl_init_scalar:
+		{
+			consty k;
+
 			if(symtab)
 				fold_expr_nodecay(dinit->bits.expr, symtab);
+
+			/* -0.0 compares equal to zero, but isn't all-bits-zero */
+			const_fold(dinit->bits.expr, &k);
+			if(k.type == CONST_NUM
+			&& K_FLOATING(k.bits.num)
+			&& floating_is_neg_zero(k.bits.num.val.f))
+			{
+				return 0;
+			}
+
 			return const_expr_and_zero(dinit->bits.expr);
+		}
+
 
 		case decl_init_brace:
 		{
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 3a76314..064794f 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -994,7 +994,7 @@ static const out_val *x86_load_fp(out_ctx *octx, const out_val *from)
 			ICE("load int into float?");
 
 		case V_CONST_F:
-			if(from->bits.val_f == 0){
+			if(from->bits.val_f == 0 && !floating_is_neg_zero(from->bits.val_f)){
 				type *const ty_fp = from->t;
 				out_val *mut = v_dup_or_reuse(octx, from, from->t);
 				struct vreg r;
@@ -1011,8 +1011,9 @@ static const out_val *x86_load_fp(out_ctx *octx, const out_val *from)
 
 			/* if it's an int-const, we can load without a label
 			 * ... unless it's greater than 0x1p63, in which case,
-			 * we can't create it from an integer. */
+			 * we can't create it from an integer. Nor -0.0 */
 			if(from->bits.val_f == (integral_t)from->bits.val_f
+			&& from->bits.val_f != 0
 			&& ucc_fabs(from->bits.val_f) < 9223372036854775808.0 /* 0x1p63 */
 			&& cc1_fopt.integral_float_load)
 			{
@@ -1867,9 +1868,15 @@ const out_val *impl_op_unary(out_ctx *octx, enum op_type op, const out_val *val)
 
 		case op_minus:
 			if(type_is_floating(val->t)){
+				/* -0.0 - x, to negate zero too */
+				numeric n_neg0;
+
+				n_neg0.val.f = -0.0;
+				n_neg0.suffix = VAL_DOUBLE;
+
 				return out_op(
 						octx, op_minus,
-						out_new_zero(octx, val->t),
+						out_new_num(octx, val->t, &n_neg0),
 						val);
 			}
 			opc = "neg";
-- 
2.43.0


From 3668fc1d24ed20c0700d76e6bc2225f5c47a9c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:42 +0000
Subject: [PATCH 48/73] fix: cc1: don't modify or evict an operand's register
 while it's in use

Binary and unary operations changed values in-place that had other users,
were spilt, or were labels, and when out of registers the divisor's or
shift's load could evict the dividend from eax or the count from cl.
---
 src/cc1/out/virt.c   |  4 ++-
 src/cc1/out/x86_64.c | 61 +++++++++++++++++++++++++++++++++++---------
 2 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/src/cc1/out/virt.c b/src/cc1/out/virt.c
index acfa80c..b325ebc 100644
--- a/src/cc1/out/virt.c
+++ b/src/cc1/out/virt.c
@@ -309,7 +309,9 @@ static int v_unused_reg2(
 		&& regtest(octx->current_fnty, &this->bits.regoff.reg))
 		{
 			/* never evict the stack or frame pointers */
-			if(!first && impl_reg_savable(&this->bits.regoff.reg))
+			if(!first
+			&& impl_reg_savable(&this->bits.regoff.reg)
+			&& !octx->reserved_regs[impl_reg_to_idx(&this->bits.regoff.reg)])
 				first = this;
 			used[impl_reg_to_idx(&this->bits.regoff.reg)] = 1;
 		}
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 064794f..8228615 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1369,8 +1369,11 @@ static const out_val *x86_idiv(
 		l = v_to_reg_given_freeup_no_off(octx, l, &rax);
 		l = v_reg_apply_offset(octx, l);
 
-		/* idiv takes either a reg or memory address */
+		/* idiv takes either a reg or memory address.
+		 * don't let loading it evict 'l' from eax */
+		v_reserve_reg(octx, &rax);
 		r = v_to(octx, r, TO_REG | TO_MEM);
+		v_unreserve_reg(octx, &rax);
 
 		assert(r->type != V_REG
 				|| r->bits.regoff.reg.idx != X86_64_REG_RDX);
@@ -1427,6 +1430,22 @@ static const out_val *x86_idiv(
 	return v_new_reg(octx, l, l->t, &result);
 }
 
+static const out_val *x86_to_modifiable_reg(
+		out_ctx *octx, const out_val *val,
+		const out_val *rhs /* may be null */)
+{
+	const int is_rhs = val == rhs;
+
+	val = v_to(octx, val, TO_REG);
+
+	/* other users of the value (except for the same operation,
+	 * e.g. x + x) need it unmodified */
+	if(val->retains > (is_rhs && val == rhs ? 2 : 1))
+		val = v_dup_or_reuse(octx, val, val->t);
+
+	return val;
+}
+
 static const out_val *x86_shift(
 		out_ctx *octx, enum op_type op,
 		const out_val *l, const out_val *r)
@@ -1437,12 +1456,13 @@ static const out_val *x86_shift(
 	/* sh[lr] [r/m], [c/r]
 	 * where            ^ must be %cl
 	 */
-	if(r->type != V_CONST_I){
-		struct vreg cl;
+	const int by_cl = r->type != V_CONST_I;
+	struct vreg cl;
 
-		cl.is_float = 0;
-		cl.idx = X86_64_REG_RCX;
+	cl.is_float = 0;
+	cl.idx = X86_64_REG_RCX;
 
+	if(by_cl){
 		r = v_to_reg_given_freeup_no_off(octx, r, &cl);
 		r = v_reg_apply_offset(octx, r);
 	}
@@ -1452,7 +1472,13 @@ static const out_val *x86_shift(
 	if(type_cmp(r->t, nchar, 0) & ~TYPE_EQUAL_ANY)
 		r = v_dup_or_reuse(octx, r, nchar); /* change type */
 
-	l = v_to(octx, l, TO_MEM | TO_REG);
+	/* don't let loading 'l' evict 'r' from %cl,
+	 * and don't shift a spilt value (or a label) in-place */
+	if(by_cl)
+		v_reserve_reg(octx, &cl);
+	l = x86_to_modifiable_reg(octx, l, r);
+	if(by_cl)
+		v_unreserve_reg(octx, &cl);
 
 	impl_val_str_r(bufv, l, 0);
 	impl_val_str_r(bufs, r, 0);
@@ -1510,7 +1536,7 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 			/* ucomi%s reg_or_mem, reg */
 			char b1[VAL_STR_SZ], b2[VAL_STR_SZ];
 
-			l = v_to(octx, l, TO_REG | TO_MEM);
+			l = v_to(octx, l, TO_REG);
 			r = v_to_reg(octx, r);
 
 			out_asm(octx, "ucomi%s %s, %s",
@@ -1552,7 +1578,7 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 		}
 
 		/* memory or register */
-		l = v_to(octx, l, TO_REG);
+		l = x86_to_modifiable_reg(octx, l, r);
 		r = v_to(octx, r, TO_REG | TO_MEM);
 
 		{
@@ -1622,8 +1648,17 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 			if((op == op_eq || op == op_ne || op == op_signbit || op == op_no_signbit)
 			&& vconst && vconst->bits.val_i == 0)
 			{
-				const out_val *vother = vconst == l ? r : l;
-				const char *vstr = impl_val_str(vother, 0); /* reg */
+				const out_val *vother;
+				const char *vstr;
+
+				/* both may be constants, if constant folding is off */
+				if(vconst == l)
+					r = v_to_reg(octx, r);
+				else
+					l = v_to_reg(octx, l);
+
+				vother = vconst == l ? r : l;
+				vstr = impl_val_str(vother, 0); /* reg */
 				out_asm(octx, "test%s %s, %s", x86_suffix(vother->t), vstr, vstr);
 			}else{
 				/* if we have a const, it must be the first arg */
@@ -1733,13 +1768,15 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 #undef V_IS_MEM
 		}
 
+		/* 'l' is modified by the operation, so can't be a label or a spilt value */
+		l = x86_to_modifiable_reg(octx, l, r);
+
 		if(FOPT_PIC(&cc1_fopt)){
 			/* pic mode - can't have direct memory references in add, etc
 			 * e.g. addl $a, %eax
 			 *
 			 * This could be fixed by emitting addl a@GOTPCREL(%rip), %eax further down
 			 */
-			l = v_to(octx, l, TO_REG);
 			r = v_to(octx, r, TO_REG | TO_CONST);
 		}
 
@@ -1893,7 +1930,7 @@ const out_val *impl_op_unary(out_ctx *octx, enum op_type op, const out_val *val)
 					val, out_new_zero(octx, val->t));
 	}
 
-	val = v_to(octx, val, TO_REG | TO_MEM);
+	val = x86_to_modifiable_reg(octx, val, NULL);
 
 	out_asm(octx, "%s%s %s", opc,
 			x86_suffix(val->t),
-- 
2.43.0


From d5f2677d19e3da778bd0a023b44c5f22d7dc83c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:58 +0000
Subject: [PATCH 49/73] fix: cc1: zero shifted by x is zero, not x

---
 src/cc1/out/op.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 281395d..16155eb 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -105,8 +105,6 @@ static int const_is_noop(enum op_type binop, const out_val *vconst, int is_lhs)
 		case op_plus:
 		case op_or:
 		case op_xor:
-		case op_shiftl: /* if we're shifting 0, or shifting _by_ zero, noop */
-		case op_shiftr:
 			return vconst->bits.val_i == 0;
 
 		case op_multiply:
@@ -117,6 +115,8 @@ static int const_is_noop(enum op_type binop, const out_val *vconst, int is_lhs)
 			return (sintegral_t)vconst->bits.val_i == -1;
 
 		/* non-commutative: */
+		case op_shiftl: /* only shifting _by_ zero - 0 << x isn't x */
+		case op_shiftr:
 		case op_minus:
 			return !is_lhs && vconst->bits.val_i == 0;
 
-- 
2.43.0


From 9d743e3154e17c3e654abb6380e9f7816c0f7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:28 +0000
Subject: [PATCH 50/73] fix: cc1: keep constant offsets within a displacement,
 and operands in registers while loading the others

---
 src/cc1/out/op.c     | 29 ++++++++++++++++++++++-------
 src/cc1/out/out.c    |  5 +++++
 src/cc1/out/x86_64.c | 26 ++++++++++++++++++++++----
 3 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 16155eb..050e8c1 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -66,30 +66,45 @@ static out_val *try_mem_offset(
 		const out_val *rhs)
 {
 	int step;
+	long offset;
 
 	/* if it's a minus, we enforce an order */
 	if((binop == op_plus || (binop == op_minus && vconst == rhs))
 	&& (vregp_or_lbl->type != V_LBL || cc1_fopt.symbol_arith)
 	&& (step = calc_ptr_step(vregp_or_lbl->t)) != -1)
 	{
-		out_val *mut_vregp_or_lbl = v_dup_or_reuse(
-				octx, vregp_or_lbl, vregp_or_lbl->t);
-		long *p;
+		out_val *mut_vregp_or_lbl;
+
+		offset = (binop == op_minus ? -1 : 1) * vconst->bits.val_i * step;
 
-		switch(mut_vregp_or_lbl->type){
+		switch(vregp_or_lbl->type){
 			case V_LBL:
-				p = &mut_vregp_or_lbl->bits.lbl.offset;
+				offset += vregp_or_lbl->bits.lbl.offset;
 				break;
 
 			case V_REG:
-				p = &mut_vregp_or_lbl->bits.regoff.offset;
+				offset += vregp_or_lbl->bits.regoff.offset;
+
+				/* only the value's own bits matter */
+				if(type_size(vregp_or_lbl->t, NULL) <= 4)
+					offset = (int)offset;
 				break;
 
 			default:
 				assert(0);
 		}
 
-		*p += (binop == op_minus ? -1 : 1) * vconst->bits.val_i * step;
+		/* must fit in a displacement */
+		if(offset != (int)offset)
+			return NULL;
+
+		mut_vregp_or_lbl = v_dup_or_reuse(
+				octx, vregp_or_lbl, vregp_or_lbl->t);
+
+		if(mut_vregp_or_lbl->type == V_LBL)
+			mut_vregp_or_lbl->bits.lbl.offset = offset;
+		else
+			mut_vregp_or_lbl->bits.regoff.offset = offset;
 
 		out_val_consume(octx, vconst);
 
diff --git a/src/cc1/out/out.c b/src/cc1/out/out.c
index ed5ed4c..b5e8f8c 100644
--- a/src/cc1/out/out.c
+++ b/src/cc1/out/out.c
@@ -244,6 +244,11 @@ const out_val *out_deref(out_ctx *octx, const out_val *target)
 
 	is_fp = type_is_floating(tnext);
 
+	if(is_fp && target->type == V_SPILT){
+		/* the pointer can't be loaded into the floating point register below */
+		target = v_to_reg(octx, target);
+	}
+
 	v_unused_reg(octx, 1, is_fp, &reg_store, target);
 
 	if(bf.nbits){
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 8228615..07d5038 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1430,6 +1430,24 @@ static const out_val *x86_idiv(
 	return v_new_reg(octx, l, l->t, &result);
 }
 
+static const out_val *x86_to_keeping(
+		out_ctx *octx, const out_val *val, enum vto loc,
+		const out_val *keep)
+{
+	/* don't let loading 'val' evict 'keep' from its register */
+	const int reserve = keep->type == V_REG && !v_is_const_reg(keep);
+
+	if(reserve)
+		v_reserve_reg(octx, &keep->bits.regoff.reg);
+
+	val = v_to(octx, val, loc);
+
+	if(reserve)
+		v_unreserve_reg(octx, &keep->bits.regoff.reg);
+
+	return val;
+}
+
 static const out_val *x86_to_modifiable_reg(
 		out_ctx *octx, const out_val *val,
 		const out_val *rhs /* may be null */)
@@ -1537,7 +1555,7 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 			char b1[VAL_STR_SZ], b2[VAL_STR_SZ];
 
 			l = v_to(octx, l, TO_REG);
-			r = v_to_reg(octx, r);
+			r = x86_to_keeping(octx, r, TO_REG, l);
 
 			out_asm(octx, "ucomi%s %s, %s",
 					x86_suffix(l->t),
@@ -1579,7 +1597,7 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 
 		/* memory or register */
 		l = x86_to_modifiable_reg(octx, l, r);
-		r = v_to(octx, r, TO_REG | TO_MEM);
+		r = x86_to_keeping(octx, r, TO_REG | TO_MEM, l);
 
 		{
 			char b1[VAL_STR_SZ], b2[VAL_STR_SZ];
@@ -1637,7 +1655,7 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 			enum flag_cmp cmp;
 
 			l = v_to(octx, l, TO_REG | TO_CONST);
-			r = v_to(octx, r, TO_REG | TO_CONST);
+			r = x86_to_keeping(octx, r, TO_REG | TO_CONST, l);
 
 			if(l->type == V_CONST_I)
 				vconst = l;
@@ -1777,7 +1795,7 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 			 *
 			 * This could be fixed by emitting addl a@GOTPCREL(%rip), %eax further down
 			 */
-			r = v_to(octx, r, TO_REG | TO_CONST);
+			r = x86_to_keeping(octx, r, TO_REG | TO_CONST, l);
 		}
 
 		if(v_is_const_reg(l)){
-- 
2.43.0


From 077691caa8d6eae094f8f8bb54c512a3459a6067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:47 +0000
Subject: [PATCH 51/73] fix: cc1: save the cpu flags before negating, which
 changes them

---
 src/cc1/out/op.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 050e8c1..dd3f40e 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -460,6 +460,13 @@ const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 			break;
 	}
 
+	{
+		const out_val *decay_except[] = { val, NULL };
+
+		/* a neg instruction changes the cpu flags */
+		v_decay_flags_except(octx, decay_except);
+	}
+
 	return impl_op_unary(octx, uop, val);
 }
 
-- 
2.43.0


From 2c99e2a3eb4ed0580a593b810effefd150aaccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:47 +0000
Subject: [PATCH 52/73] fix: cc1: handle spilt values when dereferencing and in
 unary floating point operations

---
 src/cc1/out/out.c    | 14 ++++++++------
 src/cc1/out/x86_64.c |  6 +++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/cc1/out/out.c b/src/cc1/out/out.c
index b5e8f8c..63994f6 100644
--- a/src/cc1/out/out.c
+++ b/src/cc1/out/out.c
@@ -225,7 +225,7 @@ const out_val *out_change_type(out_ctx *octx, const out_val *val, type *ty)
 
 const out_val *out_deref(out_ctx *octx, const out_val *target)
 {
-	type *tnext = type_is_ptr(target->t);
+	type *tnext;
 	struct vreg reg_store;
 	const struct vreg *reg = &reg_store;
 	int is_fp;
@@ -233,6 +233,13 @@ const out_val *out_deref(out_ctx *octx, const out_val *target)
 	const out_val *dval;
 	int done_out_deref;
 
+	if(target->type == V_SPILT){
+		/* load the pointer - the type of a V_SPILT has an extra indirection */
+		target = v_to_reg(octx, target);
+	}
+
+	tnext = type_is_ptr(target->t);
+
 	/* if the pointed-to object is not an lvalue, don't deref */
 	if(type_is(tnext, type_array)
 	|| type_is(tnext, type_func))
@@ -244,11 +251,6 @@ const out_val *out_deref(out_ctx *octx, const out_val *target)
 
 	is_fp = type_is_floating(tnext);
 
-	if(is_fp && target->type == V_SPILT){
-		/* the pointer can't be loaded into the floating point register below */
-		target = v_to_reg(octx, target);
-	}
-
 	v_unused_reg(octx, 1, is_fp, &reg_store, target);
 
 	if(bf.nbits){
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 07d5038..bc7c940 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1922,7 +1922,7 @@ const out_val *impl_op_unary(out_ctx *octx, enum op_type op, const out_val *val)
 			return val;
 
 		case op_minus:
-			if(type_is_floating(val->t)){
+			if(type_is_floating(v_get_type(val))){
 				/* -0.0 - x, to negate zero too */
 				numeric n_neg0;
 
@@ -1931,7 +1931,7 @@ const out_val *impl_op_unary(out_ctx *octx, enum op_type op, const out_val *val)
 
 				return out_op(
 						octx, op_minus,
-						out_new_num(octx, val->t, &n_neg0),
+						out_new_num(octx, v_get_type(val), &n_neg0),
 						val);
 			}
 			opc = "neg";
@@ -1945,7 +1945,7 @@ const out_val *impl_op_unary(out_ctx *octx, enum op_type op, const out_val *val)
 		case op_not:
 			return out_op(
 					octx, op_eq,
-					val, out_new_zero(octx, val->t));
+					val, out_new_zero(octx, v_get_type(val)));
 	}
 
 	val = x86_to_modifiable_reg(octx, val, NULL);
-- 
2.43.0


From 16dae4976efedbb1c6ef6a1b6084be4507f4fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:49 +0000
Subject: [PATCH 53/73] fix: cc1: don't reclaim the stack space the prologue
 stored a function's arguments in

---
 src/cc1/out/val.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc1/out/val.c b/src/cc1/out/val.c
index 7816eca..1865848 100644
--- a/src/cc1/out/val.c
+++ b/src/cc1/out/val.c
@@ -348,6 +348,11 @@ void v_try_stack_reclaim(out_ctx *octx)
 
 	lowest = -lowest;
 
+	/* what the prologue stored stays in use for the whole function
+	 * - variadic arguments' registers, for example, aren't held by a value */
+	if((v_stackt)lowest < octx->initial_stack_sz)
+		lowest = octx->initial_stack_sz;
+
 	v_stackt reclaim = octx->cur_stack_sz - lowest;
 	if(reclaim > 0){
 		if(cc1_fopt.verbose_asm)
-- 
2.43.0


From 96b836537add68a29ecac1e8d5aac07ee2815fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:41 +0000
Subject: [PATCH 54/73] fix: cc1: round folded floating operations to their
 type, as when they're not folded

---
 src/cc1/const.c       | 13 ++++++++-----
 src/cc1/const.h       |  2 +-
 src/cc1/ops/expr_op.c |  8 +++++---
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index bf154c7..f5daa72 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -258,8 +258,10 @@ integral_t const_op_exec(
 
 floating_t const_op_exec_fp(
 		floating_t lv, const floating_t *rv,
-		enum op_type op)
+		enum op_type op, int in_double)
 {
+/* a double operation rounds once, to double */
+#define ARITH(o) (in_double ? (floating_t)((double)lv o (double)*rv) : lv o *rv)
 	switch(op){
 		case op_orsc:
 		case op_andsc:
@@ -287,11 +289,11 @@ floating_t const_op_exec_fp(
 				 */
 				return NAN;
 			}
-			return lv / *rv; /* safe - / 0.0f is inf */
+			return ARITH(/); /* safe - / 0.0f is inf */
 
-		case op_multiply: return lv * *rv;
-		case op_plus:     return rv ? lv + *rv : +lv;
-		case op_minus:    return rv ? lv - *rv : -lv;
+		case op_multiply: return ARITH(*);
+		case op_plus:     return rv ? ARITH(+) : +lv;
+		case op_minus:    return rv ? ARITH(-) : -lv;
 		case op_eq:       return lv == *rv;
 		case op_ne:       return lv != *rv;
 		case op_le:       return lv <= *rv;
@@ -305,6 +307,7 @@ floating_t const_op_exec_fp(
 	}
 
 	ucc_unreach(-1);
+#undef ARITH
 }
 
 static void const_intify(consty *k, expr *owner)
diff --git a/src/cc1/const.h b/src/cc1/const.h
index d2d5122..501ebd9 100644
--- a/src/cc1/const.h
+++ b/src/cc1/const.h
@@ -97,6 +97,6 @@ integral_t const_op_exec(
 
 floating_t const_op_exec_fp(
 		floating_t lv, const floating_t *rv,
-		enum op_type op);
+		enum op_type op, int in_double);
 
 #endif
diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 2c45c6a..f5abe00 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -68,7 +68,8 @@ static void const_op_num_fp(
 	fp_r = const_op_exec_fp(
 			lhs->bits.num.val.f,
 			rhs ? &rhs->bits.num.val.f : NULL,
-			e->bits.op.op);
+			e->bits.op.op,
+			!!type_is_primitive(e->lhs->tree_type, type_double));
 
 	k->type = CONST_NUM;
 
@@ -87,9 +88,10 @@ static void const_op_num_fp(
 
 		k->bits.num.val.f = fp_r;
 
+		/* the result is a value of its type, as it would be if not folded */
 		switch(ty->primitive){
-			case type_float:   k->bits.num.suffix = VAL_FLOAT;   break;
-			case type_double:  k->bits.num.suffix = VAL_DOUBLE;  break;
+			case type_float:   k->bits.num.suffix = VAL_FLOAT;  k->bits.num.val.f = (float)fp_r; break;
+			case type_double:  k->bits.num.suffix = VAL_DOUBLE; k->bits.num.val.f = (double)fp_r; break;
 			case type_ldouble: k->bits.num.suffix = VAL_LDOUBLE; break;
 			default: ICE("bad float");
 		}
-- 
2.43.0


From 2589ce178b3f80e74aaff16ae8f6897d983e6460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:36 +0000
Subject: [PATCH 55/73] fix: cc1: use the type of a spilt value, not of its
 stack slot, for signedness

---
 src/cc1/out/op.c     | 4 ++--
 src/cc1/out/x86_64.c | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index dd3f40e..4d4928b 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -266,7 +266,7 @@ static void try_shift_conv(
 		enum op_type *binop,
 		const out_val **lhs, const out_val **rhs)
 {
-	if(type_is_signed((*lhs)->t))
+	if(type_is_signed(v_get_type(*lhs)))
 		return;
 
 	if(*binop == op_divide && (*rhs)->type == V_CONST_I){
@@ -310,7 +310,7 @@ static void try_trunc_conv(
 	integral_t k;
 	out_val *mut;
 
-	if(type_is_signed((*lhs)->t))
+	if(type_is_signed(v_get_type(*lhs)))
 		return;
 
 	assert(*binop == op_modulus);
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index bc7c940..f1b179d 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1362,7 +1362,7 @@ static const out_val *x86_idiv(
 	v_freeup_reg(octx, &rdx);
 	v_reserve_reg(octx, &rdx);
 	{
-		const int is_signed = type_is_signed(r->t);
+		const int is_signed = type_is_signed(v_get_type(r));
 
 		/* need to move 'l' into eax
 		 * then sign extended later - cqto */
@@ -1648,7 +1648,7 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 					&& !type_is_floating(v_get_type(r)),
 					"float cmp should be handled above");
 		{
-			const int is_signed = type_is_signed(l->t);
+			int is_signed;
 			char buf[VAL_STR_SZ];
 			int inv = 0;
 			const out_val *vconst = NULL;
@@ -1657,6 +1657,9 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 			l = v_to(octx, l, TO_REG | TO_CONST);
 			r = x86_to_keeping(octx, r, TO_REG | TO_CONST, l);
 
+			/* a spilt value's type is only known once loaded */
+			is_signed = type_is_signed(l->t);
+
 			if(l->type == V_CONST_I)
 				vconst = l;
 			else if(r->type == V_CONST_I)
-- 
2.43.0


From 0b97314a3027f9141c25c02cbf8487c2a382f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:55 +0000
Subject: [PATCH 56/73] fix: cc1: keep the cpu flags of a comparison while
 applying a register's offset

---
 src/cc1/out/ctrl.c   |  2 +-
 src/cc1/out/impl.h   |  3 +++
 src/cc1/out/virt.c   | 18 ++++++++++++++++++
 src/cc1/out/x86_64.c | 28 ++++++++++++++++++++++++++++
 4 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/ctrl.c b/src/cc1/out/ctrl.c
index 1642b68..b63351b 100644
--- a/src/cc1/out/ctrl.c
+++ b/src/cc1/out/ctrl.c
@@ -138,7 +138,7 @@ const out_val *out_ctrl_merge_n(out_ctx *octx, out_blk **rets)
 		 * so that we fill out all parts of the smaller size'd register,
 		 */
 		if(type_size(regged->t, NULL) < max.sz)
-			regged = out_cast(octx, regged, max.ty, 0);
+			regged = v_to_reg_given(octx, out_cast(octx, regged, max.ty, 0), &merge_reg);
 
 
 		out_flush_volatile(octx, regged);
diff --git a/src/cc1/out/impl.h b/src/cc1/out/impl.h
index 80614c4..da7f4dd 100644
--- a/src/cc1/out/impl.h
+++ b/src/cc1/out/impl.h
@@ -15,6 +15,9 @@ void impl_reg_cp_no_off(
 	ucc_nonnull();
 
 ucc_wur const out_val *impl_op(out_ctx *octx, enum op_type, const out_val *l, const out_val *r);
+/* add to a register, leaving the cpu flags as they are */
+ucc_wur const out_val *impl_add_keeping_flags(out_ctx *, const out_val *reg, long offset);
+
 ucc_wur const out_val *impl_op_unary(out_ctx *octx, enum op_type, const out_val *);
 
 ucc_wur const out_val *impl_deref(
diff --git a/src/cc1/out/virt.c b/src/cc1/out/virt.c
index b325ebc..b8f38cd 100644
--- a/src/cc1/out/virt.c
+++ b/src/cc1/out/virt.c
@@ -410,6 +410,20 @@ const out_val *v_to_reg(out_ctx *octx, const out_val *conv)
 	return v_to_reg_out(octx, conv, NULL);
 }
 
+static int v_flags_in_use(out_ctx *octx)
+{
+	out_val_list *i;
+
+	OCTX_ITER_VALS(octx, i){
+		const out_val *v = &i->val;
+
+		if(v->retains && v->type == V_FLAG && !out_val_is_blockphi(v, octx->current_blk))
+			return 1;
+	}
+
+	return 0;
+}
+
 const out_val *v_reg_apply_offset(out_ctx *octx, const out_val *const orig)
 {
 	const out_val *vreg;
@@ -435,6 +449,10 @@ const out_val *v_reg_apply_offset(out_ctx *octx, const out_val *const orig)
 	REMOVE_CONST(out_val *, orig)->bits.regoff.offset = off;
 	REMOVE_CONST(out_val *, vreg)->bits.regoff.offset = 0;
 
+	/* a comparison whose result hasn't been used yet? */
+	if(v_flags_in_use(octx))
+		return impl_add_keeping_flags(octx, vreg, off);
+
 	/* use impl_op as it doesn't do reg offsetting */
 	return impl_op(octx, off > 0 ? op_plus : op_minus,
 			vreg,
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index f1b179d..48e8e56 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1845,6 +1845,34 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 	}
 }
 
+const out_val *impl_add_keeping_flags(out_ctx *octx, const out_val *l, long offset)
+{
+	struct vreg src;
+	type *ty;
+
+	l = x86_to_modifiable_reg(octx, l, NULL);
+	src = l->bits.regoff.reg;
+
+	if(v_is_const_reg(l)){
+		struct vreg new_reg;
+
+		v_unused_reg(octx, 1, 0, &new_reg, l);
+		l = v_new_reg(octx, l, l->t, &new_reg);
+	}
+
+	/* there's no 8-bit lea */
+	ty = l->t;
+	if(type_size(ty, NULL) < type_primitive_size(type_int))
+		ty = type_nav_btype(cc1_type_nav, type_int);
+
+	out_asm(octx, "lea%s %ld(%%%s), %%%s",
+			x86_suffix(ty), offset,
+			x86_reg_str(&src, NULL),
+			x86_reg_str(&l->bits.regoff.reg, ty));
+
+	return v_dup_or_reuse(octx, l, l->t);
+}
+
 static const out_val *pointer_to_GOT(
 		out_ctx *octx,
 		const out_val *vp,
-- 
2.43.0


From 0f0dc255d469805bb3b5d22985705f555a361f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:56 +0000
Subject: [PATCH 57/73] fix: cc1: mask bit-fields that reach the top of a
 64-bit word

Shifting by the full width of the type is undefined, which left such
fields unmasked on stores (ORing into their old value) and read 64-bit
wide ones as zero.
---
 src/cc1/out/bitfield.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cc1/out/bitfield.c b/src/cc1/out/bitfield.c
index b024455..f901d32 100644
--- a/src/cc1/out/bitfield.c
+++ b/src/cc1/out/bitfield.c
@@ -11,6 +11,12 @@
 
 #include "bitfield.h"
 
+static unsigned long low_bits(unsigned nbits)
+{
+	/* shifting by the full width is undefined */
+	return nbits < CHAR_BIT * sizeof(unsigned long) ? ~(-1UL << nbits) : -1UL;
+}
+
 const out_val *out_bitfield_to_scalar(
 		out_ctx *octx,
 		const struct vbitfield *const bf,
@@ -29,7 +35,7 @@ const out_val *out_bitfield_to_scalar(
 	scalar = out_op(
 			octx, op_and,
 			scalar,
-			out_new_l(octx, ty, ~(-1UL << bf->nbits)));
+			out_new_l(octx, ty, low_bits(bf->nbits)));
 
 	/* the storage is accessed using the type of its first field,
 	 * the value's size and signedness are those of the field itself */
@@ -92,7 +98,7 @@ const out_val *out_bitfield_scalar_merge(out_ctx *octx,
 	 *     +- width
 	 */
 
-	mask_leading_1s = -1UL << (bf.off + bf.nbits);
+	mask_leading_1s = ~low_bits(bf.off + bf.nbits);
 
 	/* e.g. again:
 	 *
@@ -100,7 +106,7 @@ const out_val *out_bitfield_scalar_merge(out_ctx *octx,
 	 * << = 11111100
 	 * ~  = 00000011
 	 */
-	mask_back_0s = ~(-1UL << bf.off);
+	mask_back_0s = low_bits(bf.off);
 
 	/* | = 111100011 */
 	mask_rm = mask_leading_1s | mask_back_0s;
@@ -116,7 +122,7 @@ const out_val *out_bitfield_scalar_merge(out_ctx *octx,
 	scalar = out_op(
 			octx, op_and,
 			scalar,
-			out_new_l(octx, ty, ~(-1UL << bf.nbits)));
+			out_new_l(octx, ty, low_bits(bf.nbits)));
 
 	scalar = out_op(
 			octx, op_shiftl,
-- 
2.43.0


From ae92e63d0eaf423cfc0930a4248803b1e608e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:46 +0000
Subject: [PATCH 58/73] fix: cc1: rank short below int in the usual arithmetic
 conversions

A compound assignment to a short was done as a short operation, which
truncated the right operand and asserted for / and %.
---
 src/cc1/btype.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cc1/btype.c b/src/cc1/btype.c
index edf0f01..7cb7943 100644
--- a/src/cc1/btype.c
+++ b/src/cc1/btype.c
@@ -143,15 +143,23 @@ int type_intrank(enum type_primitive p)
 		case type_nchar:
 		case type_schar:
 		case type_uchar:
-		case type_int:
-		case type_uint:
+			return 1;
+
 		case type_short:
 		case type_ushort:
+			return 2;
+
+		case type_int:
+		case type_uint:
+			return 3;
+
 		case type_long:
 		case type_ulong:
+			return 4;
+
 		case type_llong:
 		case type_ullong:
-			return p;
+			return 5;
 	}
 }
 
-- 
2.43.0


From c43b60b09acf04002b2aa2e2c64a2d372ba4eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:46 +0000
Subject: [PATCH 59/73] fix: cc1: don't reverse a floating comparison for ! -
 with a nan both are false

---
 src/cc1/out/op.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 4d4928b..2aff4e5 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -410,6 +410,15 @@ const out_val *out_op(
 	return result;
 }
 
+static int can_reverse_flag(const struct flag_opts *flag)
+{
+	if(!(flag->mods & flag_mod_float) || cc1_fopt.finite_math_only)
+		return 1;
+
+	/* with a nan, both (a < b) and (a >= b) are false */
+	return flag->cmp == flag_eq || flag->cmp == flag_ne;
+}
+
 const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 {
 	switch(uop){
@@ -423,7 +432,7 @@ const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 	/* special case - reverse the flag if possible */
 	switch(val->type){
 		case V_FLAG:
-			if(uop == op_not){
+			if(uop == op_not && can_reverse_flag(&val->bits.flag)){
 				out_val *reversed = v_dup_or_reuse(octx, val, val->t);
 
 				reversed->bits.flag.cmp = v_not_cmp(reversed->bits.flag.cmp);
-- 
2.43.0


From 7684b8a300e9977183d103ff712edc1c27dd81ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:29 +0000
Subject: [PATCH 60/73] fix: cc1: give character constants type int, also when
 negative

---
 src/cc1/num.h          | 1 +
 src/cc1/ops/expr_val.c | 5 +++++
 src/cc1/tokenise.c     | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cc1/num.h b/src/cc1/num.h
index 2c342b7..fbe433d 100644
--- a/src/cc1/num.h
+++ b/src/cc1/num.h
@@ -44,6 +44,7 @@ struct numeric
 		VAL_FLOAT    = 1 << 6,
 		VAL_DOUBLE   = 1 << 7,
 		VAL_LDOUBLE  = 1 << 8,
+		VAL_CHAR     = 1 << 9, /* a character constant - int, even if negative */
 		VAL_FLOATING = VAL_FLOAT | VAL_DOUBLE | VAL_LDOUBLE,
 
 		/* variable was read in as decimal if none of these set */
diff --git a/src/cc1/ops/expr_val.c b/src/cc1/ops/expr_val.c
index c78ad8c..d573c2c 100644
--- a/src/cc1/ops/expr_val.c
+++ b/src/cc1/ops/expr_val.c
@@ -74,6 +74,11 @@ void fold_expr_val(expr *e, symtable *stab)
 		goto chosen;
 	}
 
+	if(num->suffix & VAL_CHAR){
+		p = type_int;
+		goto chosen;
+	}
+
 	if(num->val.i == 0){
 		assert(highest_bit == -1);
 		goto chosen;
diff --git a/src/cc1/tokenise.c b/src/cc1/tokenise.c
index 613ee17..98932b6 100644
--- a/src/cc1/tokenise.c
+++ b/src/cc1/tokenise.c
@@ -1024,7 +1024,7 @@ out:
 	else
 		currentval.val.i = (char)ch; /* ensure we sign extend from char */
 
-	currentval.suffix = 0;
+	currentval.suffix = VAL_CHAR;
 	curtok = is_wide ? token_integer : token_character;
 }
 
-- 
2.43.0


From dbcb36adcbc679ee20e866c83c10900a8bb080a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:29 +0000
Subject: [PATCH 61/73] fix: cc1: don't release a missing stack entry for the
 size of an array of variably modified typedefs

---
 src/cc1/vla.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc1/vla.c b/src/cc1/vla.c
index 5f36c94..bcb9afb 100644
--- a/src/cc1/vla.c
+++ b/src/cc1/vla.c
@@ -199,7 +199,8 @@ static const out_val *vla_gen_size_ty(
 		{
 			const out_val *cached = vla_cached_size(t, octx);
 			if(cached){
-				out_val_release(octx, stack_ent);
+				if(stack_ent)
+					out_val_release(octx, stack_ent);
 				return cached;
 			}
 
-- 
2.43.0


From 0d9f0f2ca5e11f6d3563ab2bab787a0bd823f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:26 +0000
Subject: [PATCH 62/73] fix: cc1: an unsigned plain char makes character
 constants non-negative

---
 src/cc1/tokenise.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc1/tokenise.c b/src/cc1/tokenise.c
index 98932b6..5c68b8c 100644
--- a/src/cc1/tokenise.c
+++ b/src/cc1/tokenise.c
@@ -1022,7 +1022,9 @@ out:
 	if(is_wide || multichar)
 		currentval.val.i = (int)ch;
 	else
-		currentval.val.i = (char)ch; /* ensure we sign extend from char */
+		currentval.val.i = cc1_fopt.signed_char
+			? (signed char)ch /* ensure we sign extend from char */
+			: (unsigned char)ch;
 
 	currentval.suffix = VAL_CHAR;
 	curtok = is_wide ? token_integer : token_character;
-- 
2.43.0


From c7c09196df5d9f10754ca4bd6569b59f663fa7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:26 +0000
Subject: [PATCH 63/73] fix: cc1: a discarded mention of an inlined argument no
 longer aborts

---
 src/cc1/out/new.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cc1/out/new.c b/src/cc1/out/new.c
index 6d6a0ae..cede124 100644
--- a/src/cc1/out/new.c
+++ b/src/cc1/out/new.c
@@ -192,6 +192,15 @@ label:
 		case sym_arg:
 		{
 			const out_val *v = sym_outval(sym);
+
+			if(!v){
+				/* an inlined argument which is never addressed nor written:
+				 * it has no lvalue, only a value, for a statement that discards it */
+				const out_val *inlined = sym_inline_val(octx, sym);
+				if(inlined)
+					return inlined;
+			}
+
 			assert(v && "no value for argument");
 			octx->used_stack = 1;
 			return out_val_retain(octx, v);
-- 
2.43.0


From f48d0da87af5607231f70f7f004641bb7e6f1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:10 +0000
Subject: [PATCH 64/73] fix: cc1: lay out bit-fields as the platform does - a
 group's size was that of its first field, so members overlapped

---
 src/cc1/decl.c     |  27 ---------
 src/cc1/decl.h     |   3 -
 src/cc1/fold_sue.c | 146 +++++++++++++--------------------------------
 src/cc1/out/asm.c  | 117 +++++++++++++++++-------------------
 src/cc1/out/dbg.c  |   6 +-
 5 files changed, 98 insertions(+), 201 deletions(-)

diff --git a/src/cc1/decl.c b/src/cc1/decl.c
index d59b4d1..aebfeb2 100644
--- a/src/cc1/decl.c
+++ b/src/cc1/decl.c
@@ -125,33 +125,6 @@ unsigned decl_size(decl *d)
 	return type_size(d->ref, &d->where);
 }
 
-type *decl_type_for_bitfield(decl *d)
-{
-	assert(!type_is(d->ref, type_func));
-
-	if(d->bits.var.field_width){
-		const unsigned bits = const_fold_val_i(d->bits.var.field_width);
-		const int is_signed = type_is_signed(d->ref);
-		unsigned bytes = bits / CHAR_BIT;
-
-		/* need to add on a byte for any leftovers */
-		if(bits % CHAR_BIT)
-			bytes++;
-
-		return type_nav_MAX_FOR(cc1_type_nav, bytes, is_signed);
-	}else{
-		return d->ref;
-	}
-}
-
-void decl_size_align_inc_bitfield(decl *d, unsigned *const sz, unsigned *const align)
-{
-	type *ty = decl_type_for_bitfield(d);
-
-	*sz = type_size(ty, NULL);
-	*align = type_align(ty, NULL);
-}
-
 static unsigned decl_align1(decl *d)
 {
 	unsigned al = 0;
diff --git a/src/cc1/decl.h b/src/cc1/decl.h
index 09e6702..5205f7a 100644
--- a/src/cc1/decl.h
+++ b/src/cc1/decl.h
@@ -54,7 +54,6 @@ struct decl
 			type *bitfield_master_ty;
 			unsigned struct_offset;
 			unsigned struct_offset_bitfield; /* add onto struct_offset */
-			int first_bitfield; /* marker for the first bitfield in a set */
 
 			struct
 			{
@@ -115,8 +114,6 @@ void         decl_free(decl *);
 unsigned decl_size(decl *);
 unsigned decl_align(decl *);
 #define decl_check_size(d) (void)decl_size(d)
-void decl_size_align_inc_bitfield(decl *, unsigned *const sz, unsigned *const align);
-type *decl_type_for_bitfield(decl *);
 
 enum type_cmp decl_cmp(decl *a, decl *b, enum type_cmp_opts opts);
 unsigned decl_hash(const decl *);
diff --git a/src/cc1/fold_sue.c b/src/cc1/fold_sue.c
index e42e275..e7a6a39 100644
--- a/src/cc1/fold_sue.c
+++ b/src/cc1/fold_sue.c
@@ -25,13 +25,6 @@
 
 #include "ops/expr_val.h"
 
-struct bitfield_state
-{
-	type *master_ty;
-	unsigned current_off, first_off;
-	unsigned current_limit;
-};
-
 struct pack_state
 {
 	decl *d;
@@ -56,17 +49,6 @@ static void round_size_to_align(unsigned *const size, unsigned align)
 	*size = pack_to_align(*size, align);
 }
 
-static void struct_pack_finish_bitfield(
-		unsigned long *offset, struct bitfield_state *bitfield)
-{
-	if(bitfield->master_ty){
-		unsigned master_ty_size = type_size(bitfield->master_ty, NULL);
-
-		if(*offset % master_ty_size)
-			*offset += master_ty_size - *offset % master_ty_size;
-	}
-}
-
 static void fold_enum(struct_union_enum_st *en, symtable *stab)
 {
 	const int has_bitmask = !!attr_present(en->attr, attr_enum_bitmask);
@@ -270,87 +252,52 @@ static int fold_sue_check_vm(decl *d)
 
 static void fold_sue_calc_fieldwidth(
 		struct pack_state *pack_state,
-		int *const realign_next,
-		unsigned long *const offset,
-		struct bitfield_state *const bitfield)
+		int packed,
+		unsigned long *const offset, unsigned *const spare_bits)
 {
-	const unsigned bits = const_fold_val_i(pack_state->d->bits.var.field_width);
 	decl *const d = pack_state->d;
-
-	/* don't affect sz_max or align_max */
-	pack_state->sz = pack_state->align = 0;
-
+	const int in_union = pack_state->sue->primitive == type_union;
+	const unsigned bits = const_fold_val_i(d->bits.var.field_width);
+	const unsigned ty_size = type_size(d->ref, &d->where);
+	const unsigned ty_bits = CHAR_BIT * ty_size;
+	unsigned long pos = in_union ? 0 : *offset * CHAR_BIT - *spare_bits;
+
+	/* a bitfield takes the next free bits of the struct, provided that it doesn't
+	 * straddle an (aligned) object of its type - that's what it's accessed with */
 	if(bits == 0){
-		/* align next field / treat as new bitfield
-		 * note we don't pad here - we don't want to
-		 * take up any space with this field
-		 */
-		*realign_next = 1;
-
-		/* also set struct_offset for 0-len bf, for pad reasons */
-		d->bits.var.struct_offset = *offset;
-
-	}else if(*realign_next
-	|| !bitfield->current_off
-	|| bitfield->current_off + bits > bitfield->current_limit)
-	{
-		if(*realign_next || bitfield->current_off){
-			if(!*realign_next){
-				/* bitfield overflow - repad */
-				cc1_warn_at(&d->where,
-						bitfield_boundary,
-						"bitfield overflow (%d + %d > %d) - "
-						"moved to next boundary", bitfield->current_off, bits,
-						bitfield->current_limit);
-			}
-
-			*realign_next = 0;
-			bitfield->current_off = 0;
+		/* align the next field - this doesn't affect the struct's size or alignment */
+		pack_state->sz = pack_state->align = 0;
 
-			if(bitfield->master_ty){
-				/* round offset up to master_ty's size */
-				struct_pack_finish_bitfield(offset, bitfield);
-			}
+		pos = pack_to_align(pos, ty_bits);
+		d->bits.var.struct_offset = pos / CHAR_BIT;
+		d->bits.var.struct_offset_bitfield = 0;
+	}else{
+		const unsigned unit_size = packed ? 1 : ty_size;
+		unsigned unit_off = pos % (unit_size * CHAR_BIT);
+
+		if(unit_off + bits > ty_bits){
+			cc1_warn_at(&d->where,
+					bitfield_boundary,
+					"bitfield overflow (%d + %d > %d) - "
+					"moved to next boundary", unit_off, bits,
+					ty_bits);
+
+			pos = pack_to_align(pos, unit_size * CHAR_BIT);
+			unit_off = 0;
 		}
 
-		bitfield->master_ty = d->ref;
-		bitfield->current_limit = CHAR_BIT * type_size(d->ref, &d->where);
-
-		d->bits.var.bitfield_master_ty = bitfield->master_ty;
-
-		/* Get some initial padding.
-		 * Note that we want to affect the align_max
-		 * of the struct and the size of this field
-		 */
-		decl_size_align_inc_bitfield(d, &pack_state->sz, &pack_state->align);
-		round_size_to_align(&pack_state->sz, pack_state->align);
-
-		/* we are onto the beginning of a new group */
-		struct_pack(d, offset, pack_state->sz, pack_state->align);
-		bitfield->first_off = d->bits.var.struct_offset;
-		d->bits.var.first_bitfield = 1;
-
-		/* now that we've done the struct packing w.r.t. bitfield size, we change
-		 * pack_state->align to the align of the declared member type itself, to
-		 * affect the struct's alignment (and also tail padding, etc) */
-		pack_state->align = type_align(d->ref, NULL);
+		d->bits.var.bitfield_master_ty = d->ref;
+		d->bits.var.struct_offset = (pos - unit_off) / CHAR_BIT;
+		d->bits.var.struct_offset_bitfield = unit_off;
 
-	}else{
-		/* mirror previous bitfields' offset in the struct
-		 * difference is in .struct_offset_bitfield
-		 */
-		d->bits.var.struct_offset = bitfield->first_off;
-		d->bits.var.bitfield_master_ty = bitfield->master_ty;
+		pos += bits;
+		pack_state->sz = (bits + CHAR_BIT - 1) / CHAR_BIT;
+		pack_state->align = d->spel ? type_align(d->ref, NULL) : 1;
 	}
 
-	d->bits.var.struct_offset_bitfield = bitfield->current_off;
-	bitfield->current_off += bits; /* allowed to go above sizeof(int) */
-
-	if(bitfield->current_off == bitfield->current_limit){
-		/* exactly reached the limit, reset bitfield indexing */
-		bitfield->current_off = 0;
-
-		struct_pack_finish_bitfield(offset, bitfield);
+	if(!in_union){
+		*offset = (pos + CHAR_BIT - 1) / CHAR_BIT;
+		*spare_bits = *offset * CHAR_BIT - pos;
 	}
 }
 
@@ -389,17 +336,13 @@ static void fold_sue_calc_normal(struct pack_state *const pack_state)
 static void fold_sue_apply_normal_offset(
 		struct pack_state *pack_state,
 		unsigned long *const offset,
-		struct bitfield_state *const bitfield)
+		unsigned *const spare_bits)
 {
 	decl *const d = pack_state->d;
 	const int prev_offset = *offset;
 	int pad;
 
-	if(bitfield->current_off){
-		/* we automatically pad on the next struct_pack,
-		 * don't struct_pack() here */
-		bitfield->current_off = 0;
-	}
+	*spare_bits = 0;
 
 	struct_pack(d, offset, pack_state->sz, pack_state->align);
 
@@ -464,14 +407,11 @@ void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 		unsigned align_max = 1;
 		unsigned sz_max = 0;
 		unsigned long offset = 0;
-		int realign_next = 0;
+		unsigned spare_bits = 0; /* at the end of offset, for the next bitfield */
 		int submemb_const = 0;
-		struct bitfield_state bitfield;
 		sue_member **i;
 		const int packed = !!attr_present(sue->attr, attr_packed);
 
-		memset(&bitfield, 0, sizeof bitfield);
-
 		if(cc1_fopt.dump_layouts)
 			fprintf(stderr, "Record layout for %s:\n", sue->spel);
 
@@ -509,8 +449,8 @@ void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 			}else if(d->bits.var.field_width){
 				fold_sue_calc_fieldwidth(
 						&pack_state,
-						&realign_next, &offset,
-						&bitfield);
+						packed || attribute_present(d, attr_packed),
+						&offset, &spare_bits);
 
 			}else{
 				fold_sue_calc_normal(&pack_state);
@@ -520,7 +460,7 @@ void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 				pack_state.align = 1;
 
 			if(sue->primitive == type_struct && !d->bits.var.field_width){
-				fold_sue_apply_normal_offset(&pack_state, &offset, &bitfield);
+				fold_sue_apply_normal_offset(&pack_state, &offset, &spare_bits);
 			}
 
 			if(cc1_fopt.dump_layouts){
diff --git a/src/cc1/out/asm.c b/src/cc1/out/asm.c
index 9352b2c..b5d1c78 100644
--- a/src/cc1/out/asm.c
+++ b/src/cc1/out/asm.c
@@ -197,12 +197,41 @@ static void asm_declare_init_bitfields(
 	}
 }
 
+/* output a run of bitfields, whose offsets are from the start of the struct */
 static void bitfields_out(
 		const struct section *sec,
 		struct bitfield_val *bfs, unsigned *pn,
-		type *ty)
+		unsigned *const end_of_last)
 {
-	asm_declare_init_bitfields(sec, bfs, *pn, ty);
+	unsigned end = *end_of_last * CHAR_BIT;
+	unsigned i;
+
+	for(i = 0; i < *pn; i++)
+		if(bfs[i].offset + bfs[i].width > end)
+			end = bfs[i].offset + bfs[i].width;
+
+	while(*end_of_last * CHAR_BIT < end){
+		const unsigned start = *end_of_last * CHAR_BIT;
+		unsigned bytes = sizeof(integral_t), bit;
+		integral_t v = 0;
+
+		while(*end_of_last % bytes || start + (bytes - 1) * CHAR_BIT >= end)
+			bytes /= 2;
+
+		for(i = 0; i < *pn; i++)
+			for(bit = 0; bit < bfs[i].width; bit++)
+				if(bfs[i].offset + bit >= start
+				&& bfs[i].offset + bit < start + bytes * CHAR_BIT
+				&& (bfs[i].val >> bit) & 1)
+				{
+					v |= (integral_t)1 << (bfs[i].offset + bit - start);
+				}
+
+		asm_declare_init_type(sec, type_nav_MAX_FOR(cc1_type_nav, bytes, 0));
+		asm_out_section(sec, "%" NUMERIC_FMT_D "\n", v);
+		*end_of_last += bytes;
+	}
+
 	*pn = 0;
 }
 
@@ -229,7 +258,8 @@ static struct bitfield_val *bitfields_add(
 			di ? di->bits.expr : NULL,
 			mem->bits.var.field_width);
 
-	bfs[i].offset = mem->bits.var.struct_offset_bitfield;
+	bfs[i].offset = mem->bits.var.struct_offset * CHAR_BIT
+		+ mem->bits.var.struct_offset_bitfield;
 
 	return bfs;
 }
@@ -356,7 +386,6 @@ static void asm_declare_init(const struct section *sec, decl_init *init, type *t
 		unsigned end_of_last = 0;
 		struct bitfield_val *bitfields = NULL;
 		unsigned nbitfields = 0;
-		decl *first_bf = NULL;
 		expr *copy_from_exp;
 
 		UCC_ASSERT(init->type == decl_init_brace, "unbraced struct");
@@ -424,8 +453,20 @@ static void asm_declare_init(const struct section *sec, decl_init *init, type *t
 			DEBUG_BITFIELD_INIT("current offset=%d, end of last field=%d\n",
 					d_mem->bits.var.struct_offset, end_of_last);
 
-			/* only pad if we're not on a bitfield or we're on the first bitfield */
-			if(!d_mem->bits.var.field_width || !first_bf){
+			if(d_mem->bits.var.field_width){
+				/* added even when it's zero width, but then without any bits */
+				bitfields = bitfields_add(
+						bitfields, &nbitfields,
+						d_mem, di_to_use);
+
+				DEBUG_BITFIELD_INIT("  adding .%s to bitfields, offset %d, width %" NUMERIC_FMT_D "\n",
+						d_mem->spel,
+						bitfields[nbitfields - 1].offset,
+						const_fold_val_i(d_mem->bits.var.field_width));
+
+			}else{
+				bitfields_out(sec, bitfields, &nbitfields, &end_of_last);
+
 				UCC_ASSERT(
 						d_mem->bits.var.struct_offset >= end_of_last,
 						"negative struct pad, %s::%s @ %u >= end_of_last @ %u",
@@ -438,70 +479,20 @@ static void asm_declare_init(const struct section *sec, decl_init *init, type *t
 				asm_declare_pad(sec,
 						d_mem->bits.var.struct_offset - end_of_last,
 						"prev struct padding");
-			}
-
-			if(d_mem->bits.var.field_width){
-				const int zero_width = const_fold_val_i(d_mem->bits.var.field_width) == 0;
-
-				/* we aren't in a BF at the mo, and this is set as first_bitfield */
-				if(!first_bf || d_mem->bits.var.first_bitfield){
-					if(!first_bf){
-						DEBUG_BITFIELD_INIT("  new bitfield group (at .%s)\n", d_mem->spel);
-					}else{
-						DEBUG_BITFIELD_INIT("  new bitfield group (at .%s) after current bitfield group - flushing\n",
-								d_mem->spel);
-
-						/* next bitfield group - store the current */
-						bitfields_out(sec, bitfields, &nbitfields, first_bf->ref);
-					}
-
-					if(zero_width){
-						DEBUG_BITFIELD_INIT("  .%s is zero width - not marking as anchor for this group\n", d_mem->spel);
-						first_bf = NULL;
-					}else{
-						first_bf = d_mem;
-					}
-				}
-
-				if(zero_width){
-					DEBUG_BITFIELD_INIT("  .%s is zero width, ignored\n", d_mem->spel);
-				}else{
-					DEBUG_BITFIELD_INIT("  adding .%s to bitfield group, offset %d, width %" NUMERIC_FMT_D "\n",
-							d_mem->spel,
-							d_mem->bits.var.struct_offset_bitfield,
-							const_fold_val_i(d_mem->bits.var.field_width));
-
-					bitfields = bitfields_add(
-							bitfields, &nbitfields,
-							d_mem, di_to_use);
-				}
-
-			}else{
-				if(nbitfields){
-					DEBUG_BITFIELD_INIT("  at non-bitfield, flushing current\n");
-
-					bitfields_out(sec, bitfields, &nbitfields, decl_type_for_bitfield(first_bf));
-					first_bf = NULL;
-				}
 
 				DEBUG_BITFIELD_INIT("  normal init for .%s\n", d_mem->spel);
 				asm_declare_init(sec, di_to_use, d_mem->ref);
-			}
-
-			if(type_is_incomplete_array(d_mem->ref)){
-				UCC_ASSERT(!mem[1], "flex-arr not at end");
-			}else if(!d_mem->bits.var.field_width || d_mem->bits.var.first_bitfield){
-				unsigned sz, align;
 
-				decl_size_align_inc_bitfield(d_mem, &sz, &align);
-
-				end_of_last = d_mem->bits.var.struct_offset + sz;
-				DEBUG_BITFIELD_INIT("  %d byte(s) initialised so far\n", end_of_last);
+				if(type_is_incomplete_array(d_mem->ref)){
+					UCC_ASSERT(!mem[1], "flex-arr not at end");
+				}else{
+					end_of_last = d_mem->bits.var.struct_offset + type_size(d_mem->ref, NULL);
+					DEBUG_BITFIELD_INIT("  %d byte(s) initialised so far\n", end_of_last);
+				}
 			}
 		}
 
-		if(nbitfields)
-			bitfields_out(sec, bitfields, &nbitfields, first_bf->ref);
+		bitfields_out(sec, bitfields, &nbitfields, &end_of_last);
 		free(bitfields);
 
 		/* need to pad to struct size */
diff --git a/src/cc1/out/dbg.c b/src/cc1/out/dbg.c
index 1709465..68a86f3 100644
--- a/src/cc1/out/dbg.c
+++ b/src/cc1/out/dbg.c
@@ -864,7 +864,6 @@ static struct DIE *dwarf_suetype(
 		case type_struct:
 		{
 			sue_member **si;
-			decl *current_bitfield = NULL;
 
 			suedie = dwarf_sue_header(
 					cu,
@@ -882,9 +881,6 @@ static struct DIE *dwarf_suetype(
 				struct dwarf_block *offset;
 				struct dwarf_block_ent *blkents;
 
-				if(dmem->bits.var.first_bitfield)
-					current_bitfield = dmem;
-
 				if(DECL_IS_ANON_BITFIELD(dmem)){
 					/* skip, otherwise dwarf thinks this decl's a field and messes up */
 					continue;
@@ -921,7 +917,7 @@ static struct DIE *dwarf_suetype(
 				/* bitfield */
 				if(dmem->bits.var.field_width){
 					form_data_t width = const_fold_val_i(dmem->bits.var.field_width);
-					form_data_t whole_sz = type_size(current_bitfield->ref, NULL);
+					form_data_t whole_sz = type_size(dmem->ref, NULL);
 
 					/* address of top-end */
 					form_data_t off =
-- 
2.43.0


From f99e314349ce3cdfacf129004693ebeb7b746219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:53 +0000
Subject: [PATCH 65/73] fix: cc1: access a bit-field as the smallest object
 that contains it, leaving its neighbours alone

---
 src/cc1/fold_sue.c | 15 ++++++++++++++-
 src/cc1/out/dbg.c  |  7 ++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/cc1/fold_sue.c b/src/cc1/fold_sue.c
index e7a6a39..3538ad0 100644
--- a/src/cc1/fold_sue.c
+++ b/src/cc1/fold_sue.c
@@ -274,6 +274,7 @@ static void fold_sue_calc_fieldwidth(
 	}else{
 		const unsigned unit_size = packed ? 1 : ty_size;
 		unsigned unit_off = pos % (unit_size * CHAR_BIT);
+		unsigned access_size;
 
 		if(unit_off + bits > ty_bits){
 			cc1_warn_at(&d->where,
@@ -286,7 +287,19 @@ static void fold_sue_calc_fieldwidth(
 			unit_off = 0;
 		}
 
-		d->bits.var.bitfield_master_ty = d->ref;
+		/* access it as the smallest object that contains it, as the
+		 * other members in its type's object may be in use by others */
+		for(access_size = 1;
+				access_size < ty_size && pos % (access_size * CHAR_BIT) + bits > access_size * CHAR_BIT;
+				access_size *= 2);
+
+		if(access_size < ty_size){
+			d->bits.var.bitfield_master_ty = type_nav_MAX_FOR(
+					cc1_type_nav, access_size, type_is_signed(d->ref));
+			unit_off = pos % (access_size * CHAR_BIT);
+		}else{
+			d->bits.var.bitfield_master_ty = d->ref;
+		}
 		d->bits.var.struct_offset = (pos - unit_off) / CHAR_BIT;
 		d->bits.var.struct_offset_bitfield = unit_off;
 
diff --git a/src/cc1/out/dbg.c b/src/cc1/out/dbg.c
index 68a86f3..f79e5d7 100644
--- a/src/cc1/out/dbg.c
+++ b/src/cc1/out/dbg.c
@@ -905,6 +905,10 @@ static struct DIE *dwarf_suetype(
 				blkents[0].bits.v = DW_OP_plus_uconst;
 				blkents[1].type = BLOCK_LEB128_U;
 				blkents[1].bits.v = dmem->bits.var.struct_offset;
+				if(dmem->bits.var.field_width){
+					/* described as part of an object of its type */
+					blkents[1].bits.v -= blkents[1].bits.v % type_size(dmem->ref, NULL);
+				}
 
 				offset = umalloc(sizeof *offset);
 				offset->cnt = 2;
@@ -922,7 +926,8 @@ static struct DIE *dwarf_suetype(
 					/* address of top-end */
 					form_data_t off =
 						(whole_sz * CHAR_BIT)
-						- (width + dmem->bits.var.struct_offset_bitfield);
+						- (width + dmem->bits.var.struct_offset_bitfield
+								+ (dmem->bits.var.struct_offset - blkents[1].bits.v) * CHAR_BIT);
 
 					dwarf_attr(memdie,
 							DW_AT_bit_offset, DW_FORM_data1,
-- 
2.43.0


From 5d6ecf8d1f54b5921605f0c752e28e5eaf51343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:05 +0000
Subject: [PATCH 66/73] fix: cc1: -g: don't describe the address of an unused
 static or extern, there's no symbol for it to refer to

---
 src/cc1/decl.c    | 32 +++++++++++++++-----------------
 src/cc1/decl.h    |  1 +
 src/cc1/out/dbg.c |  9 +++++++++
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/cc1/decl.c b/src/cc1/decl.c
index aebfeb2..7c72d10 100644
--- a/src/cc1/decl.c
+++ b/src/cc1/decl.c
@@ -379,30 +379,28 @@ int decl_should_emit_var(decl *d)
 	return !decl_unused_and_internal(d);
 }
 
-int decl_unused_and_internal(decl *d)
+int decl_is_used(decl *d)
 {
 	/* need to check every clone of the decl */
 	decl *i;
-	int used = 0;
 
 	if(attribute_present(d, attr_used))
-		return 0;
+		return 1;
 
-	for(i = d; i; i = i->proto){
-		if(i->flags & DECL_FLAGS_USED){
-			used = 1;
-			goto fin;
-		}
-	}
-	for(i = d; i; i = i->impl){
-		if(i->flags & DECL_FLAGS_USED){
-			used = 1;
-			goto fin;
-		}
-	}
+	for(i = d; i; i = i->proto)
+		if(i->flags & DECL_FLAGS_USED)
+			return 1;
+
+	for(i = d; i; i = i->impl)
+		if(i->flags & DECL_FLAGS_USED)
+			return 1;
 
-fin:
-	return !used && decl_linkage(d) != linkage_external;
+	return 0;
+}
+
+int decl_unused_and_internal(decl *d)
+{
+	return !decl_is_used(d) && decl_linkage(d) != linkage_external;
 }
 
 int decl_is_bitfield(decl *d)
diff --git a/src/cc1/decl.h b/src/cc1/decl.h
index 5205f7a..9cd9d9b 100644
--- a/src/cc1/decl.h
+++ b/src/cc1/decl.h
@@ -145,6 +145,7 @@ decl *decl_with_init(decl *, enum decl_impl_flags);
 int decl_is_pure_inline(decl *);
 int decl_should_emit_code(decl *);
 int decl_should_emit_var(decl *);
+int decl_is_used(decl *);
 int decl_unused_and_internal(decl *);
 enum visibility decl_visibility(decl *);
 int decl_defined(decl *, enum decl_impl_flags);
diff --git a/src/cc1/out/dbg.c b/src/cc1/out/dbg.c
index f79e5d7..90b52d4 100644
--- a/src/cc1/out/dbg.c
+++ b/src/cc1/out/dbg.c
@@ -1243,6 +1243,15 @@ static struct DIE *dwarf_global_variable(
 	if(type_is(d->ref, type_func) && !decl_should_emit_code(d))
 		return NULL;
 
+	/* an unused static isn't emitted, and an unused extern needn't be defined -
+	 * there's no symbol to refer to */
+	if((store == store_static || (store == store_extern && !d->bits.var.init.dinit))
+	&& !type_is(d->ref, type_func)
+	&& !decl_is_used(d))
+	{
+		return NULL;
+	}
+
 	vardie = dwarf_die_new(is_tdef ? DW_TAG_typedef : DW_TAG_variable);
 
 	dwarf_attr_decl(cu, vardie, d, d->ref, !is_tdef);
-- 
2.43.0


From df102589eed2366c56fd28c610456620dfc82577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:44 +0000
Subject: [PATCH 67/73] fix: cc1: __builtin_*_overflow - unsigned overflow is a
 carry or a wide product, and a narrower result may not hold the exact one

---
 src/cc1/ops/__builtin.c | 101 +++++++++++++++++++++++++++++++---------
 1 file changed, 78 insertions(+), 23 deletions(-)

diff --git a/src/cc1/ops/__builtin.c b/src/cc1/ops/__builtin.c
index efd33b7..4c7b019 100644
--- a/src/cc1/ops/__builtin.c
+++ b/src/cc1/ops/__builtin.c
@@ -1204,45 +1204,100 @@ static type *arith_overflow_largest_type(const expr *e)
 	return t;
 }
 
+static const out_val *gen_arith_narrowed(
+		const out_val *result, type *from, type *to, out_ctx *octx)
+{
+	/* is the (exact) result changed by the conversion to `to`? */
+	const out_val *narrowed;
+
+	out_val_retain(octx, result);
+	out_val_retain(octx, result);
+	narrowed = out_cast(octx, result, to, 0);
+
+	return out_op(octx, op_ne, out_cast(octx, narrowed, from, 0), result);
+}
+
+static const out_val *gen_arith_unsigned_overflow(
+		enum op_type op, type *ty,
+		const out_val *lhs, const out_val *rhs,
+		const out_val **presult, out_ctx *octx)
+{
+	const out_val *one, *divisor, *nonzero;
+
+	out_val_retain(octx, lhs);
+	out_val_retain(octx, rhs);
+	*presult = out_op(octx, op, lhs, rhs);
+
+	switch(op){
+		case op_plus:
+			/* wrapped if we're less than either operand */
+			out_val_release(octx, rhs);
+			out_val_retain(octx, *presult);
+			return out_op(octx, op_lt, *presult, lhs);
+
+		case op_minus:
+			return out_op(octx, op_lt, lhs, rhs);
+
+		default:
+			/* rhs && result / rhs != lhs */
+			out_val_retain(octx, rhs);
+			out_val_retain(octx, rhs);
+			nonzero = out_op(octx, op_ne, rhs, out_new_l(octx, ty, 0));
+			one = out_cast(octx, out_op(octx, op_eq, rhs, out_new_l(octx, ty, 0)), ty, 0);
+			divisor = out_op(octx, op_or, rhs, one);
+
+			out_val_retain(octx, *presult);
+			return out_op(octx, op_and,
+					out_op(octx, op_ne,
+						out_op(octx, op_divide, *presult, divisor), lhs),
+					nonzero);
+	}
+}
+
 static const out_val *gen_arith_overflow(const expr *e, out_ctx *octx)
 {
-	const out_val *lhs, *rhs, *result, *result_trunc;
+	const out_val *lhs, *rhs, *result;
 	const out_val *of;
 	const out_val *store;
 	type *largest = arith_overflow_largest_type(e);
 	type *storety = type_is_ptr(e->funcargs[2]->tree_type);
-	int smaller_than_int = type_size(storety, NULL) < type_primitive_size(type_int);
 
+	store = gen_expr(e->funcargs[2], octx);
 	lhs = gen_expr(e->funcargs[0], octx);
 	rhs = gen_expr(e->funcargs[1], octx);
 
-	lhs = out_cast(octx, lhs, largest, 0);
-	rhs = out_cast(octx, rhs, largest, 0);
+	if(type_size(largest, NULL) <= type_primitive_size(type_int)){
+		/* a wider type holds the exact result, or (for the product of two
+		 * unsigned ints) one which isn't that of any narrower type */
+		type *wide = type_nav_btype(cc1_type_nav, type_llong);
 
-	result = out_op(octx, e->bits.op.op, lhs, rhs);
-
-	of = out_new_overflow(octx, &result);
-
-	store = gen_expr(e->funcargs[2], octx);
-	if(smaller_than_int)
-		out_val_retain(octx, result);
+		lhs = out_cast(octx, lhs, wide, 0);
+		rhs = out_cast(octx, rhs, wide, 0);
+		result = out_op(octx, e->bits.op.op, lhs, rhs);
 
-	result_trunc = out_cast(octx, result, storety, 0);
-	out_store(octx, store, result_trunc);
+		of = gen_arith_narrowed(result, wide, storety, octx);
+	}else{
+		lhs = out_cast(octx, lhs, largest, 0);
+		rhs = out_cast(octx, rhs, largest, 0);
 
-	if(smaller_than_int){
-		type *intty = type_nav_btype(cc1_type_nav, type_int);
-		const out_val *extended, *shortened;
-		const out_val *hasdiff;
-
-		out_val_retain(octx, result);
-		extended = out_cast(octx, result, intty, 0);
-		shortened = out_cast(octx, extended, storety, 0);
-		hasdiff = out_op(octx, op_ne, shortened, result);
+		if(type_is_signed(largest)){
+			result = out_op(octx, e->bits.op.op, lhs, rhs);
+			of = out_new_overflow(octx, &result);
+		}else{
+			of = gen_arith_unsigned_overflow(
+					e->bits.op.op, largest, lhs, rhs, &result, octx);
+		}
 
-		of = out_op(octx, op_or, of, hasdiff);
+		if(type_size(storety, NULL) < type_size(largest, NULL)){
+			of = out_op(octx, op_or,
+					out_cast(octx, of, type_nav_btype(cc1_type_nav, type_int), 0),
+					out_cast(octx, gen_arith_narrowed(result, largest, storety, octx),
+						type_nav_btype(cc1_type_nav, type_int), 0));
+		}
 	}
 
+	out_store(octx, store, out_cast(octx, result, storety, 0));
+
 	return of;
 }
 
-- 
2.43.0


From 818c5a90d6c70c824c01f63932851a0b11978901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:16 +0000
Subject: [PATCH 68/73] fix: cc1: zero a bit-field by assigning to it - a
 memset of its type's size overwrote its neighbours

---
 src/cc1/decl_init.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/cc1/decl_init.c b/src/cc1/decl_init.c
index 47a169c..ab3e420 100644
--- a/src/cc1/decl_init.c
+++ b/src/cc1/decl_init.c
@@ -1671,15 +1671,17 @@ zero_init:
 			return;
 		}
 
-		/* this works for zeroing bitfields,
-		 * since we don't take the address
-		 * - builtin memset calls lea_expr()
-		 *   which can handle bitfields
-		 */
-		zero = builtin_new_memset(
-				base,
-				0,
-				type_size(tfor, &base->where));
+		if(expr_is_struct_bitfield(base)){
+			/* a memset may write to the neighbouring bitfields */
+			zero = expr_new_assign_init(
+					base,
+					expr_set_where(expr_new_val(0), &base->where));
+		}else{
+			zero = builtin_new_memset(
+					base,
+					0,
+					type_size(tfor, &base->where));
+		}
 
 		memcpy_safe(&zero->where, &base->where);
 
-- 
2.43.0


From fa1a827a2c614229007644ae687ed7cbf9fdf94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:53 +0000
Subject: [PATCH 69/73] fix: cc1: return structs whose last register isn't
 filled by one load, and keep the address of an inline struct copy

---
 src/cc1/out/mem.c    |  6 ++++++
 src/cc1/out/x86_64.c | 25 +++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/mem.c b/src/cc1/out/mem.c
index 691174b..a2e6f61 100644
--- a/src/cc1/out/mem.c
+++ b/src/cc1/out/mem.c
@@ -111,6 +111,12 @@ const out_val *out_memcpy(
 		}
 
 		out_val_release(octx, src);
+
+		/* back to the start, in bytes */
+		dest = out_change_type(
+				octx, dest,
+				type_ptr_to(type_nav_btype(cc1_type_nav, type_uchar)));
+
 		return out_op(
 				octx, op_minus,
 				dest, out_new_l(octx, dest->t, nbytes));
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 48e8e56..c58facd 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -303,6 +303,13 @@ enum regtype
 	FLOAT
 };
 
+static int x86_uneven_tail(unsigned sz)
+{
+	/* a last register that isn't filled by a single load */
+	const unsigned tail = sz % platform_word_size();
+	return tail & (tail - 1);
+}
+
 static void x86_overlay_regpair_1(
 		struct vreg regs[], enum regtype chosentype, int *regpair_idx)
 {
@@ -870,10 +877,20 @@ x86_func_ret_memcpy(
 static void x86_func_ret_regs(
 		out_ctx *octx, type *called, const out_val *from)
 {
-	const unsigned sz = type_size(called, NULL);
+	unsigned sz = type_size(called, NULL);
 	struct vreg regs[2];
 	int nregs;
 
+	if(x86_uneven_tail(sz)){
+		/* load from a copy, of which we can read whole registers */
+		const unsigned padded = pack_to_align(sz, platform_word_size());
+		const out_val *copy = out_aalloc(
+				octx, padded, platform_word_size(), called, NULL);
+
+		from = out_memcpy(octx, copy, from, sz);
+		sz = padded;
+	}
+
 	x86_overlay_regpair(regs, &nregs, called);
 
 	/* read from the stack to registers */
@@ -2496,7 +2513,11 @@ const out_val *impl_call(
 	}
 
 	/* hidden stret argument */
-	switch((stret_kind = x86_stret(retty, &stret_stack))){
+	stret_kind = x86_stret(retty, &stret_stack);
+	if(stret_kind == stret_regs && x86_uneven_tail(stret_stack))
+		stret_stack = pack_to_align(stret_stack, pws); /* for the whole register */
+
+	switch(stret_kind){
 		case stret_memcpy:
 			nints++; /* only an extra pointer arg for stret_memcpy */
 			/* fall */
-- 
2.43.0


From 3117ff807d9596248442151875874782799ac028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:51 +0000
Subject: [PATCH 70/73] fix: cc1: sanitizers - test overflow only after an
 instruction which shows it, check compound assignments and %, LONG_MIN / -1,
 and nonnull pointers only; don't lose a tested pointer

---
 src/cc1/ops/expr_assign_compound.c |  7 +++-
 src/cc1/ops/expr_op.c              | 51 ++++++++++++++++++++----------
 src/cc1/ops/expr_op.h              |  5 +++
 src/cc1/out/op.c                   | 30 ++++++++++++++++--
 src/cc1/sanitize.c                 | 36 +++++++++++++++------
 src/cc1/sanitize.h                 |  2 +-
 6 files changed, 100 insertions(+), 31 deletions(-)

diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index bf5198d..085880b 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -81,6 +81,7 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 	 */
 	const out_val *saved_post = NULL, *copy = NULL;
 	const out_val *addr_lhs, *rhs, *lhs, *result;
+	type *op_ty;
 
 	addr_lhs = gen_expr(e->lhs, octx);
 
@@ -118,8 +119,12 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 	if(e->bits.compoundop.upcast_ty)
 		lhs = out_cast(octx, lhs, e->bits.compoundop.upcast_ty, /*normalise_bool:*/1);
 
+	/* the operation is on the promoted type, if any */
+	op_ty = e->bits.compoundop.upcast_ty ? e->bits.compoundop.upcast_ty : e->tree_type;
+
+	gen_op_sanitize(e->bits.compoundop.op, op_ty, e->rhs->tree_type, &lhs, &rhs, octx);
 	result = out_op(octx, e->bits.compoundop.op, lhs, rhs);
-	gen_op_trapv(e->tree_type, &result, octx, e->bits.compoundop.op);
+	gen_op_trapv(op_ty, &result, octx, e->bits.compoundop.op);
 
 	if(e->bits.compoundop.upcast_ty) /* need to cast back down to store */
 		result = out_cast(octx, result, e->tree_type, /*normalise_bool:*/1);
diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index f5abe00..55e0882 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -1509,6 +1509,25 @@ static const out_val *op_shortcircuit(const expr *e, out_ctx *octx)
 	}
 }
 
+void gen_op_sanitize(
+		enum op_type op, type *tlhs, type *trhs,
+		const out_val **lhs, const out_val **rhs,
+		out_ctx *octx)
+{
+	switch(op){
+		case op_shiftl:
+		case op_shiftr:
+			sanitize_shift(tlhs, trhs, op, octx, lhs, rhs);
+			break;
+		case op_divide:
+		case op_modulus:
+			sanitize_divide(*lhs, *rhs, tlhs, octx);
+			break;
+		default:
+			break;
+	}
+}
+
 void gen_op_trapv(
 		type *evaltt,
 		const out_val **eval,
@@ -1525,8 +1544,15 @@ void gen_op_trapv(
 		return;
 	}
 
-	if(op_is_comparison(op))
-		return;
+	switch(op){
+		case op_plus:
+		case op_minus:
+		case op_multiply:
+			break;
+		default:
+			/* the overflow flag isn't set, or not for an overflow */
+			return;
+	}
 
 	{
 		out_blk *land = out_blk_new(octx, "trapv_end");
@@ -1579,20 +1605,10 @@ const out_val *gen_expr_op(const expr *e, out_ctx *octx)
 	}else{
 		const out_val *rhs = gen_expr(e->rhs, octx);
 
-		switch(e->bits.op.op){
-			case op_plus:
-				sanitize_boundscheck(e->lhs, e->rhs, octx, lhs, rhs);
-				break;
-			case op_shiftl:
-			case op_shiftr:
-				sanitize_shift(e->lhs, e->rhs, e->bits.op.op, octx, &lhs, &rhs);
-				break;
-			case op_divide:
-				sanitize_divide(lhs, rhs, e->tree_type, octx);
-				break;
-			default:
-				break;
-		}
+		if(e->bits.op.op == op_plus)
+			sanitize_boundscheck(e->lhs, e->rhs, octx, lhs, rhs);
+		else
+			gen_op_sanitize(e->bits.op.op, e->tree_type, e->rhs->tree_type, &lhs, &rhs, octx);
 
 		eval = out_op(octx, e->bits.op.op, lhs, rhs);
 
@@ -1601,7 +1617,8 @@ const out_val *gen_expr_op(const expr *e, out_ctx *octx)
 		eval = out_change_type(octx, eval, e->tree_type);
 	}
 
-	gen_op_trapv(e->tree_type, &eval, octx, e->bits.op.op);
+	if(e->rhs || e->bits.op.op == op_minus)
+		gen_op_trapv(e->tree_type, &eval, octx, e->bits.op.op);
 
 	return eval;
 }
diff --git a/src/cc1/ops/expr_op.h b/src/cc1/ops/expr_op.h
index 3844b95..2c45e0a 100644
--- a/src/cc1/ops/expr_op.h
+++ b/src/cc1/ops/expr_op.h
@@ -35,6 +35,11 @@ int fold_check_bounds(expr *e, int chk_one_past_end);
 void expr_check_sign(const char *desc,
 		expr *lhs, expr *rhs, where *w);
 
+void gen_op_sanitize(
+		enum op_type, type *tlhs, type *trhs,
+		const out_val **lhs, const out_val **rhs,
+		out_ctx *);
+
 void gen_op_trapv(
 		type *evaltt,
 		const out_val **eval,
diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 2aff4e5..8e3b150 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -330,6 +330,29 @@ static void try_trunc_conv(
 	mut->bits.val_i = k - 1;
 }
 
+/* is the overflow flag of this operation going to be tested?
+ * if so it must be left to an instruction which sets it */
+static int op_overflow_checked(
+		out_ctx *octx, enum op_type binop,
+		const out_val *lhs, const out_val *rhs)
+{
+	switch(binop){
+		case op_plus:
+		case op_minus:
+		case op_multiply:
+			break;
+		default:
+			return 0;
+	}
+
+	if(type_is_ptr(lhs->t) || type_is_ptr(rhs->t))
+		return out_sanitize_enabled(octx, SAN_POINTER_OVERFLOW);
+
+	return type_is_integral(lhs->t)
+		&& type_is_signed(lhs->t)
+		&& out_sanitize_enabled(octx, SAN_SIGNED_INTEGER_OVERFLOW);
+}
+
 static const out_val *consume_one(
 		out_ctx *octx,
 		const out_val *const ret,
@@ -348,6 +371,7 @@ const out_val *out_op(
 	const out_val *vconst = NULL, *vregp_or_lbl = NULL;
 	const out_val *result;
 	const out_val *decay_except[] = { lhs, rhs, NULL };
+	const int overflow_checked = op_overflow_checked(octx, binop, lhs, rhs);
 
 	v_decay_flags_except(octx, decay_except); /* an op instruction may change cpu flags */
 
@@ -355,14 +379,14 @@ const out_val *out_op(
 	fill_if_type(rhs, &vconst, &vregp_or_lbl);
 
 	/* check for adding or subtracting to stack */
-	if(vconst && vregp_or_lbl){
+	if(vconst && vregp_or_lbl && (!overflow_checked || v_is_const_reg(vregp_or_lbl))){
 		result = try_mem_offset(octx, binop, vconst, vregp_or_lbl, rhs);
 		if(result)
 			return result;
 	}
 
 	/* constant folding */
-	if(vconst && cc1_fopt.const_fold){
+	if(vconst && cc1_fopt.const_fold && !overflow_checked){
 		const out_val *oconst = (vconst == lhs ? rhs : lhs);
 
 		if(oconst->type == V_CONST_I){
@@ -391,7 +415,7 @@ const out_val *out_op(
 			break;
 		case op_multiply:
 		case op_divide:
-			if(vconst && !out_sanitize_enabled(octx, SAN_SIGNED_INTEGER_OVERFLOW | SAN_POINTER_OVERFLOW))
+			if(vconst && !overflow_checked)
 				try_shift_conv(octx, &binop, &lhs, &rhs);
 			break;
 		case op_modulus:
diff --git a/src/cc1/sanitize.c b/src/cc1/sanitize.c
index c0c4713..71eca5d 100644
--- a/src/cc1/sanitize.c
+++ b/src/cc1/sanitize.c
@@ -157,13 +157,13 @@ void sanitize_vlacheck(const out_val *vla_sz, type *sz_ty, out_ctx *octx)
 }
 
 void sanitize_shift(
-		expr *elhs, expr *erhs,
+		type *tlhs, type *trhs,
 		enum op_type op,
 		out_ctx *octx,
 		const out_val **const lhs, const out_val **const rhs)
 {
 	/* rhs must be < bit-size of lhs' type */
-	const unsigned max = CHAR_BIT * type_size(elhs->tree_type, NULL);
+	const unsigned max = CHAR_BIT * type_size(tlhs, NULL);
 	out_blk *current;
 
 	if(!out_sanitize_enabled(octx, SAN_SHIFT_EXPONENT))
@@ -179,11 +179,11 @@ void sanitize_shift(
 	sanitize_assert_order(*rhs, op_lt, max, uintptr_ty(), octx, "shift rhs size");
 
 	/* rhs must not be negative */
-	sanitize_assert_order(*rhs, op_ge, 0, erhs->tree_type, octx, "shift rhs negative");
+	sanitize_assert_order(*rhs, op_ge, 0, trhs, octx, "shift rhs negative");
 
 	/* if left shift, lhs must not be negative */
 	if(op == op_shiftl)
-		sanitize_assert_order(*lhs, op_ge, 0, elhs->tree_type, octx, "shift lhs negative");
+		sanitize_assert_order(*lhs, op_ge, 0, tlhs, octx, "shift lhs negative");
 
 	*lhs = out_val_unphi(octx, *lhs);
 	*rhs = out_val_unphi(octx, *rhs);
@@ -192,6 +192,7 @@ void sanitize_shift(
 void sanitize_divide(const out_val *lhs, const out_val *rhs, type *ty, out_ctx *octx)
 {
 	const out_val *cmp, *zero;
+	long min;
 	const int is_fp = type_is_floating(ty);
 
 	if(is_fp){
@@ -213,13 +214,17 @@ void sanitize_divide(const out_val *lhs, const out_val *rhs, type *ty, out_ctx *
 	cmp = out_op(octx, op_ne, out_val_retain(octx, rhs), zero);
 	sanitize_assert(cmp, octx, "divide by zero");
 
-	if(is_fp)
+	if(is_fp || !type_is_signed(ty))
 		return;
 
+	/* smallest value of the type, sign extended */
+	min = -1;
+	min <<= CHAR_BIT * type_size(ty, NULL) - 1;
+
 	cmp = out_op(octx, op_or,
-			out_op(octx, op_ne, out_val_retain(octx, lhs), out_new_l(octx, ty, UCC_INT_MIN)),
+			out_op(octx, op_ne, out_val_retain(octx, lhs), out_new_l(octx, ty, min)),
 			out_op(octx, op_ne, out_val_retain(octx, rhs), out_new_l(octx, ty, -1)));
-	sanitize_assert(cmp, octx, "INT_MIN / -1");
+	sanitize_assert(cmp, octx, "MIN / -1");
 }
 
 void sanitize_nonnull_args(symtable *arg_symtab, out_ctx *octx)
@@ -237,6 +242,10 @@ void sanitize_nonnull_args(symtable *arg_symtab, out_ctx *octx)
 		if(!da)
 			continue;
 
+		/* a plain nonnull applies to all pointers, not other arguments */
+		if(!type_is_ptr(d->ref))
+			continue;
+
 		sanitize_assert(
 				out_new_sym_val(octx, d->sym),
 				octx,
@@ -244,12 +253,21 @@ void sanitize_nonnull_args(symtable *arg_symtab, out_ctx *octx)
 	}
 }
 
+/* compare, instead of branching on v itself: a branch leaves its condition
+ * in a register, but v is used on the other side of the branch */
+static const out_val *sanitize_test_nonnull(const out_val *v, out_ctx *octx)
+{
+	return out_op(octx, op_ne,
+			out_val_retain(octx, v),
+			out_new_l(octx, type_ptr_to(type_nav_btype(cc1_type_nav, type_void)), 0));
+}
+
 void sanitize_nonnull(
 		const out_val *v, out_ctx *octx, const char *desc)
 {
 	if(!out_sanitize_enabled(octx, SAN_NULL))
 		return;
-	sanitize_assert(out_val_retain(octx, v), octx, desc);
+	sanitize_assert(sanitize_test_nonnull(v, octx), octx, desc);
 }
 
 void sanitize_aligned(const out_val *v, out_ctx *octx, type *t)
@@ -271,7 +289,7 @@ void sanitize_returns_nonnull(const out_val *v, out_ctx *octx)
 {
 	if(!out_sanitize_enabled(octx, SAN_RETURNS_NONNULL_ATTRIBUTE))
 		return;
-	sanitize_assert(out_val_retain(octx, v), octx, "returns_nonnull");
+	sanitize_assert(sanitize_test_nonnull(v, octx), octx, "returns_nonnull");
 }
 
 void sanitize_bool(const out_val *v, out_ctx *octx)
diff --git a/src/cc1/sanitize.h b/src/cc1/sanitize.h
index 410e336..ec4fadc 100644
--- a/src/cc1/sanitize.h
+++ b/src/cc1/sanitize.h
@@ -13,7 +13,7 @@ void sanitize_boundscheck(
 void sanitize_vlacheck(const out_val *vla_sz, type *sz_ty, out_ctx *);
 
 void sanitize_shift(
-		expr *elhs, expr *erhs,
+		type *tlhs, type *trhs,
 		enum op_type,
 		out_ctx *octx,
 		const out_val **lhs, const out_val **rhs);
-- 
2.43.0


From b794f26d44895ea61d5b6b9218d45b60a996588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:23 +0000
Subject: [PATCH 71/73] fix: cc1: inlining - a recursive call's parameter must
 not see the outer call's constant argument

---
 src/cc1/inline.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cc1/inline.c b/src/cc1/inline.c
index b357a3b..0133c19 100644
--- a/src/cc1/inline.c
+++ b/src/cc1/inline.c
@@ -135,7 +135,10 @@ static void inline_sym_map_save(
 			 * non-const temporary */
 			sym_setoutval(s, inline_arg_to_lvalue(octx, args[i], s->decl->ref));
 
-			pushed_vals[i].map_val = NULL;
+			/* in a recursive inline, hide the value that the
+			 * outer call might have for this sym */
+			pushed_vals[i].map_val = dynmap_rm(sym *, const out_val *,
+					cc1_octx->sym_inline_map, s);
 		}else{
 			const out_val *was_set;
 
@@ -176,7 +179,10 @@ static void inline_sym_map_restore(
 		if((v = sym_outval(s))){
 			/* lvalue case */
 			out_val_release(octx, v);
-			assert(!pushed_vals[i].map_val);
+			if(pushed_vals[i].map_val){
+				dynmap_set(sym *, const out_val *,
+						cc1_octx->sym_inline_map, s, pushed_vals[i].map_val);
+			}
 		}else{
 			/* rvalue case */
 			const out_val *arg;
-- 
2.43.0


From e65daaef02452a6a97522ea5bed296938af068b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:23 +0000
Subject: [PATCH 72/73] fix: cc1: move another block's phi value out of its
 register in that block

---
 src/cc1/out/virt.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cc1/out/virt.c b/src/cc1/out/virt.c
index b8f38cd..c958b33 100644
--- a/src/cc1/out/virt.c
+++ b/src/cc1/out/virt.c
@@ -308,8 +308,9 @@ static int v_unused_reg2(
 		&& this->bits.regoff.reg.is_float == fp
 		&& regtest(octx->current_fnty, &this->bits.regoff.reg))
 		{
-			/* never evict the stack or frame pointers */
-			if(!first
+			/* never evict the stack or frame pointers,
+			 * and prefer not to evict another block's phi value */
+			if((!first || out_val_is_blockphi(first, octx->current_blk))
 			&& impl_reg_savable(&this->bits.regoff.reg)
 			&& !octx->reserved_regs[impl_reg_to_idx(&this->bits.regoff.reg)])
 				first = this;
@@ -339,7 +340,17 @@ static int v_unused_reg2(
 		/* no free regs, move `first` to the stack and claim its reg */
 		*out = first->bits.regoff.reg;
 
-		freed = v_freeup_regp(octx, first);
+		if(out_val_is_blockphi(first, octx->current_blk)){
+			/* the value is only in its register at the end of its own block,
+			 * so that's where it must be moved out of it */
+			out_blk *const saved_blk = octx->current_blk;
+
+			octx->current_blk = first->phiblock;
+			freed = v_freeup_regp(octx, first);
+			octx->current_blk = saved_blk;
+		}else{
+			freed = v_freeup_regp(octx, first);
+		}
 
 		out_val_consume(octx, freed);
 
-- 
2.43.0


From 62979e1f1ec65a9cf88e9fee85aee3d3655feeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:46 +0000
Subject: [PATCH 73/73] fix: cc1: a block's extern and typedef declarations
 take no stack space

---
 src/cc1/sym.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cc1/sym.c b/src/cc1/sym.c
index faa7763..927f311 100644
--- a/src/cc1/sym.c
+++ b/src/cc1/sym.c
@@ -300,6 +300,15 @@ unsigned symtab_decl_bytes(
 		if((d->flags & DECL_FLAGS_ADDRESSED) && addr_taken)
 			*addr_taken = 1;
 
+		switch((enum decl_storage)(d->store & STORE_MASK_STORE)){
+			case store_extern:
+			case store_typedef:
+				/* no storage here, and possibly incomplete */
+				continue;
+			default:
+				break;
+		}
+
 		if(array_only && !type_is_array(d->ref))
 			continue;
 
-- 
2.43.0

