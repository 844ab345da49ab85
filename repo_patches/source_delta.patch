From 030ed8a59026cadf57471f5431eaf8959ff30543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 01/15] fix: terminate the table of command line options

argp reads the table up to an all-zero entry; without one it ran past the
end of the array.
---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index a2dcd8f..b3a2c8d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -25,6 +25,7 @@ static char *doc = "Gaia assembles a 6502 source code file into a binary file.";
 static struct argp_option options[] = {
 	{"output", 'o', "FILE", 0, "Place assembled binary into <FILE>", 0},
 	// {"cmos",   'c', NULL,   0, "Use 65C02 opcodes",                  0}
+	{NULL, 0, NULL, 0, NULL, 0} // argp needs a terminating entry
 };
 
 // struct used as storage for arg_parse()
-- 
2.43.0


From 3e4b33dc7d63f00b8c6d41074c36decc3d2e0b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 02/15] fix: assemble source lines of any length

Lines of more than 127 characters were split by fgets(), and the rest of
such a line was assembled as a line of its own.
---
 src/main.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index b3a2c8d..1116a59 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4,6 +4,8 @@ The Gaia assembler for 6502 Assembly.
 
 */
 
+#define _POSIX_C_SOURCE 200809L // for getline()
+
 #include <argp.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -93,6 +95,7 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 #define ABORT_ASSEMBLY()                                                     \
 	do {                                                                 \
 		abort_gaia(inf, outf, lexer, tk, instr, symtab, unresolved); \
+		free(buffer);                                                \
 		return EXIT_FAILURE;                                         \
 	} while (0)
 
@@ -104,8 +107,6 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 */
 #define IS_ERROR(code) ((code) < 0)
 
-#define MAX_BUFFER_SIZE 128
-
 /* abort_gaia()
 	@inf            source file
 	@outf           assembled binary file
@@ -152,6 +153,8 @@ int main(int argc, char *argv[])
 
 	FILE *inf = NULL;
 	FILE *outf = NULL;
+	char *buffer = NULL;
+	size_t buffer_size = 0;
 	struct Lexer *lexer = init_lexer(args.src_file);
 	struct Token *tk = init_token();
 	struct Instruction *instr = init_instruction();
@@ -176,7 +179,6 @@ int main(int argc, char *argv[])
 		ABORT_ASSEMBLY();
 	}
 
-	char buffer[MAX_BUFFER_SIZE];
 	int line_num = 1;
 	int return_code;
 	int pc = 0x0;
@@ -186,7 +188,7 @@ int main(int argc, char *argv[])
 	int written_bytes = 0;
 	struct ForwardRef *ref;
 	int total_bytes = 0;
-	while (fgets(buffer, MAX_BUFFER_SIZE, inf)) {
+	while (getline(&buffer, &buffer_size, inf) != -1) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
 		if (IS_ERROR(return_code))
 			ABORT_ASSEMBLY();
@@ -283,6 +285,7 @@ int main(int argc, char *argv[])
 
 	fclose(inf);
 	fclose(outf);
+	free(buffer);
 	destroy_lexer(lexer);
 	destroy_token(tk);
 	destroy_instruction(instr);
-- 
2.43.0


From a2fa427ffea9123fe0c17ccb5c3bb4c274319a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 03/15] fix: report a source that cannot be read to its end

A read error (or a directory given as the source) was taken for the end of
the file, and the part read so far was assembled successfully.
---
 src/error.c |  4 ++++
 src/error.h |  1 +
 src/main.c  | 11 ++++++++++-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index 4bc501b..9edfa1a 100644
--- a/src/error.c
+++ b/src/error.c
@@ -23,6 +23,7 @@ printed, which is aligned to the error in the source line.
 	The following do not print source lines or the error arrow:
 		ERROR_MEMORY_ALLOCATION_FAIL
 		ERROR_FILE_OPEN_FAIL
+		ERROR_FILE_READ_FAIL
 		ERROR_BINARY_FILE_CREATION_FAIL
 	These cases should pass in NULL for @line and @bad_char.
 	The following do not print the error arrow:
@@ -74,6 +75,9 @@ void print_error(const char *line, int error_code, const char *bad_char,
 	case ERROR_FILE_OPEN_FAIL:
 		printf("ERROR: %s could not be opened\n", file_name);
 		break;
+	case ERROR_FILE_READ_FAIL:
+		printf("ERROR: %s could not be read\n", file_name);
+		break;
 	case ERROR_BINARY_FILE_CREATION_FAIL:
 		printf("ERROR: assembled binary file could not be created\n");
 		break;
diff --git a/src/error.h b/src/error.h
index 6fe0355..801cb74 100644
--- a/src/error.h
+++ b/src/error.h
@@ -39,6 +39,7 @@ Error codes used by the assembler. Also a prototype to print error messages.
 #define ERROR_MISSING_LABEL_DEFINITION  -18
 #define ERROR_ILLEGAL_DIRECTIVE         -19
 #define ERROR_ILLEGAL_BASE              -20
+#define ERROR_FILE_READ_FAIL            -21
 /*
 ;       ;       ;       ;       ;       ;
 */
diff --git a/src/main.c b/src/main.c
index 1116a59..8104a5a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -188,7 +188,9 @@ int main(int argc, char *argv[])
 	int written_bytes = 0;
 	struct ForwardRef *ref;
 	int total_bytes = 0;
-	while (getline(&buffer, &buffer_size, inf) != -1) {
+	int end_directive = 0;
+	// ferror(): a line cut off by a read error must not be assembled
+	while (getline(&buffer, &buffer_size, inf) != -1 && !ferror(inf)) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
 		if (IS_ERROR(return_code))
 			ABORT_ASSEMBLY();
@@ -207,6 +209,7 @@ int main(int argc, char *argv[])
 		           first->type == TOKEN_ORG_DIRECTIVE) {
 			pc = first->value;
 		} else if (first->type == TOKEN_END_DIRECTIVE) {
+			end_directive = 1;
 			break;
 		}
 
@@ -262,6 +265,12 @@ int main(int argc, char *argv[])
 		total_bytes += written_bytes;
 	}
 
+	if (!end_directive && !feof(inf)) {
+		print_error(NULL, ERROR_FILE_READ_FAIL, NULL, args.src_file,
+		            -1);
+		ABORT_ASSEMBLY();
+	}
+
 	int dest_pc;
 	for (int i = 0; i < unresolved->curr; i++) {
 		ref = unresolved->refs[i];
-- 
2.43.0


From b139017189bed8393e47f6c44702c302690357a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 04/15] fix: report output that cannot be written

fseek, fputc and fclose failures on the assembled binary were ignored, so
a full disk ended in exit status 0 and a success report over a truncated
file.
---
 src/error.c     |  4 ++++
 src/error.h     |  1 +
 src/generator.c | 19 +++++++++++++++----
 src/main.c      | 11 ++++++++++-
 4 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/error.c b/src/error.c
index 9edfa1a..79c8568 100644
--- a/src/error.c
+++ b/src/error.c
@@ -25,6 +25,7 @@ printed, which is aligned to the error in the source line.
 		ERROR_FILE_OPEN_FAIL
 		ERROR_FILE_READ_FAIL
 		ERROR_BINARY_FILE_CREATION_FAIL
+		ERROR_BINARY_FILE_WRITE_FAIL
 	These cases should pass in NULL for @line and @bad_char.
 	The following do not print the error arrow:
 		ERROR_UNKNOWN
@@ -81,6 +82,9 @@ void print_error(const char *line, int error_code, const char *bad_char,
 	case ERROR_BINARY_FILE_CREATION_FAIL:
 		printf("ERROR: assembled binary file could not be created\n");
 		break;
+	case ERROR_BINARY_FILE_WRITE_FAIL:
+		printf("ERROR: assembled binary file could not be written\n");
+		break;
 	case ERROR_MISSING_LABEL_DEFINITION:
 		printf("ERROR: label definition was not found\n");
 		break;
diff --git a/src/error.h b/src/error.h
index 801cb74..92812d1 100644
--- a/src/error.h
+++ b/src/error.h
@@ -40,6 +40,7 @@ Error codes used by the assembler. Also a prototype to print error messages.
 #define ERROR_ILLEGAL_DIRECTIVE         -19
 #define ERROR_ILLEGAL_BASE              -20
 #define ERROR_FILE_READ_FAIL            -21
+#define ERROR_BINARY_FILE_WRITE_FAIL    -22
 /*
 ;       ;       ;       ;       ;       ;
 */
diff --git a/src/generator.c b/src/generator.c
index c4ffdc4..9f23698 100644
--- a/src/generator.c
+++ b/src/generator.c
@@ -27,7 +27,7 @@ references.
 	@operand        ptr to operand token (can be NULL)
 	@curr_pc        current program counter location
 
-	@return         number of bytes written to @f
+	@return         number of bytes written to @f, or error code
 
 	Assemble a line of code and write the bytes to a binary file.
 */
@@ -36,7 +36,10 @@ int generate_code(FILE *f, struct Instruction *instr, struct Token *operand,
 {
 	instr->opcode = get_opcode(instr);
 
-	fseek(f, curr_pc, SEEK_SET);
+	if (fseek(f, curr_pc, SEEK_SET) != 0) {
+		print_error(NULL, ERROR_BINARY_FILE_WRITE_FAIL, NULL, NULL, -1);
+		return ERROR_BINARY_FILE_WRITE_FAIL;
+	}
 	fputc(instr->opcode, f);
 
 	int operand_bytes;
@@ -163,7 +166,11 @@ int resolve_forward_ref(FILE *f, struct ForwardRef *ref, struct Lexer *lexer,
 
 		if (instr->addr_bitflag) {
 			instr->opcode = get_opcode(instr);
-			fseek(f, ref->pc, SEEK_SET);
+			if (fseek(f, ref->pc, SEEK_SET) != 0) {
+				print_error(NULL, ERROR_BINARY_FILE_WRITE_FAIL,
+				            NULL, NULL, -1);
+				return ERROR_BINARY_FILE_WRITE_FAIL;
+			}
 			fputc(instr->opcode, f);
 			fputc(offset & 0xFF, f);
 			return TWO_BYTES;
@@ -176,7 +183,11 @@ int resolve_forward_ref(FILE *f, struct ForwardRef *ref, struct Lexer *lexer,
 	} else if (ref->operand_status == JUMP_FORWARD_REFERENCE) {
 		if (instr->addr_bitflag) {
 			instr->opcode = get_opcode(instr);
-			fseek(f, ref->pc, SEEK_SET);
+			if (fseek(f, ref->pc, SEEK_SET) != 0) {
+				print_error(NULL, ERROR_BINARY_FILE_WRITE_FAIL,
+				            NULL, NULL, -1);
+				return ERROR_BINARY_FILE_WRITE_FAIL;
+			}
 			fputc(instr->opcode, f);
 			fputc(dest_pc & 0xFF, f);
 			fputc(dest_pc >> 8, f);
diff --git a/src/main.c b/src/main.c
index 8104a5a..cf73060 100644
--- a/src/main.c
+++ b/src/main.c
@@ -288,12 +288,21 @@ int main(int argc, char *argv[])
 			ABORT_ASSEMBLY();
 	}
 
+	// the last bytes may reach the file as late as in fclose()
+	int write_failed = ferror(outf);
+	write_failed |= fclose(outf) == EOF;
+	outf = NULL;
+	if (write_failed) {
+		print_error(NULL, ERROR_BINARY_FILE_WRITE_FAIL, NULL,
+		            args.src_file, -1);
+		ABORT_ASSEMBLY();
+	}
+
 	printf("Assembly successful.\n");
 	printf("%i (0x%04x) bytes assembled.\n", total_bytes, total_bytes);
 	printf("%i symbols.\n", symtab->count);
 
 	fclose(inf);
-	fclose(outf);
 	free(buffer);
 	destroy_lexer(lexer);
 	destroy_token(tk);
-- 
2.43.0


From c5fbd626ca13d17eb6b4c61d9f260009d5ceb8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 05/15] fix: report lines with too many tokens

gaia exited with a failure status but without any message.
---
 src/lexer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index cfeecb7..19bc8f8 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -655,8 +655,9 @@ int lex_line(const char *buffer, struct Lexer *lexer, struct Token *tk,
 		}
 
 		if (add_token(lexer, tk) == ERROR_TOO_MANY_TOKENS) {
-			// don't set lexer->error_tk or call print_error()
-			// the parser will pinpoint the first bad token
+			// the parser never sees this line, so report it here
+			print_error(buffer, ERROR_TOO_MANY_TOKENS, curr,
+			            lexer->file_name, lexer->line_num);
 			return ERROR_TOO_MANY_TOKENS;
 		}
 
-- 
2.43.0


From 6734e7296ccfd09cc5dc61da10c2f9907f851fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 06/15] fix: report memory exhaustion while recording labels
 and references

Running out of memory there ended gaia without any message, and the
forward reference that could not be recorded was leaked.
---
 src/main.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index cf73060..6074cd4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -203,6 +203,9 @@ int main(int argc, char *argv[])
 		if (first->type == TOKEN_LABEL ||
 		    first->type == TOKEN_DEFINE_DIRECTIVE) {
 			return_code = parse_label_declaration(lexer, symtab, pc);
+			if (return_code == ERROR_MEMORY_ALLOCATION_FAIL)
+				print_error(NULL, return_code, NULL,
+				            args.src_file, -1);
 			if (IS_ERROR(return_code))
 				ABORT_ASSEMBLY();
 		} else if (first->type == TOKEN_BASE ||
@@ -234,10 +237,13 @@ int main(int argc, char *argv[])
 			ref = create_forward_ref(buffer, instr, operand,
 			                         operand_status, pc,
 			                         line_num);
-			if (!ref)
-				ABORT_ASSEMBLY();
-			if (IS_ERROR(add_forward_ref(unresolved, ref)))
+			if (!ref || IS_ERROR(add_forward_ref(unresolved, ref))) {
+				if (ref)
+					destroy_forward_ref(ref);
+				print_error(NULL, ERROR_MEMORY_ALLOCATION_FAIL,
+				            NULL, args.src_file, -1);
 				ABORT_ASSEMBLY();
+			}
 
 			// write dummy bytes
 			fputc(0x00, outf);
-- 
2.43.0


From 424740184000e10b9d635a039a1d8c24389a482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 07/15] fix: keep the pending references when their array
 cannot grow

A failing realloc() overwrote the only pointer to the array, so every
recorded forward reference was lost and leaked.
---
 src/forward_reference.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/forward_reference.c b/src/forward_reference.c
index 398d4ec..bb15223 100644
--- a/src/forward_reference.c
+++ b/src/forward_reference.c
@@ -166,10 +166,12 @@ struct ForwardRef *create_forward_ref(const char *buffer,
 struct Unresolved *resize_unresolved(struct Unresolved *unresolved)
 {
 	size_t new_size = 2 * unresolved->size * sizeof(struct ForwardRef *);
-	unresolved->refs = realloc(unresolved->refs, new_size);
-	if (!unresolved->refs)
+	struct ForwardRef **refs = realloc(unresolved->refs, new_size);
+	// the old array is still valid if realloc() fails
+	if (!refs)
 		return NULL;
 
+	unresolved->refs = refs;
 	// initialize new forward refs
 	unresolved->size *= 2;
 	for (int i = unresolved->size / 2; i < unresolved->size; i++)
-- 
2.43.0


From 902c5500d7485ac30bc0a0b1af39362f2dd566f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 08/15] fix: free what was allocated when a constructor runs
 out of memory

init_token(), init_sequence(), init_lexer(), init_symbol_table(),
init_symbol(), init_unresolved() and create_forward_ref() returned NULL
without freeing the allocations made before the failing one.
---
 src/forward_reference.c | 18 +++++++++++++-----
 src/lexer.c             | 14 +++++++++++---
 src/symbol_table.c      |  8 ++++++--
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/forward_reference.c b/src/forward_reference.c
index bb15223..87142a8 100644
--- a/src/forward_reference.c
+++ b/src/forward_reference.c
@@ -33,8 +33,10 @@ struct Unresolved *init_unresolved(void)
 
 	struct ForwardRef **refs = calloc(BASE_SIZE,
 	                                  sizeof(struct ForwardRef *));
-	if (!refs)
+	if (!refs) {
+		free(unresolved);
 		return NULL;
+	}
 
 	unresolved->refs = refs;
 	unresolved->curr = 0;
@@ -100,7 +102,7 @@ struct ForwardRef *create_forward_ref(const char *buffer,
                                       const struct Token *operand,
                                       int operand_status, int pc, int line_num)
 {
-	struct ForwardRef *ref = malloc(sizeof(struct ForwardRef));
+	struct ForwardRef *ref = calloc(1, sizeof(struct ForwardRef));
 	if (!ref)
 		return NULL;
 
@@ -118,22 +120,28 @@ struct ForwardRef *create_forward_ref(const char *buffer,
 	// copy source line into forward ref
 	size_t num_chars = end - begin + 1;
 	ref->source_line = calloc(num_chars + 1, sizeof(char));
-	if (!ref->source_line)
+	if (!ref->source_line) {
+		destroy_forward_ref(ref);
 		return NULL;
+	}
 	// keep the comments in, no one cares
 	memcpy(ref->source_line, begin, num_chars);
 
 	// copy label string into forward ref's label
 	size_t label_length = strlen(operand->str);
 	ref->label = calloc(label_length + 1, sizeof(char));
-	if (!ref->label)
+	if (!ref->label) {
+		destroy_forward_ref(ref);
 		return NULL;
+	}
 	memcpy(ref->label, operand->str, label_length);
 
 	// copy instr into forward ref's instr
 	struct Instruction *new_instr = init_instruction();
-	if (!new_instr)
+	if (!new_instr) {
+		destroy_forward_ref(ref);
 		return NULL;
+	}
 	new_instr->mnemonic = instr->mnemonic;
 	new_instr->addr_bitfield = instr->addr_bitfield;
 	new_instr->addr_bitflag = instr->addr_bitflag;
diff --git a/src/lexer.c b/src/lexer.c
index 19bc8f8..b22e30b 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -36,8 +36,10 @@ struct Token *init_token(void)
 
 	tk->type = TOKEN_NULL;
 	tk->str = calloc(MAX_TOKEN_STR_LEN, sizeof(char));
-	if (!tk->str)
+	if (!tk->str) {
+		free(tk);
 		return NULL;
+	}
 	tk->value = 0U;
 	tk->error_char = NULL;
 	tk->buffer_location = NULL;
@@ -60,8 +62,12 @@ static struct Token **init_sequence(void)
 	// initialize tokens in the sequence
 	for (int i = 0; i < MAX_TOKENS; i++) {
 		sequence[i] = init_token();
-		if (!sequence[i])
+		if (!sequence[i]) {
+			while (i-- > 0)
+				destroy_token(sequence[i]);
+			free(sequence);
 			return NULL;
+		}
 	}
 	return sequence;
 }
@@ -80,8 +86,10 @@ struct Lexer *init_lexer(const char *file_name)
 		return NULL;
 
 	lexer->sequence = init_sequence();
-	if (!lexer->sequence)
+	if (!lexer->sequence) {
+		free(lexer);
 		return NULL;
+	}
 
 	lexer->curr = 0;
 	lexer->error_tk = NULL;
diff --git a/src/symbol_table.c b/src/symbol_table.c
index dc1237b..a43e0d2 100644
--- a/src/symbol_table.c
+++ b/src/symbol_table.c
@@ -35,8 +35,10 @@ struct SymbolTable *init_symbol_table(void)
 		return NULL;
 
 	symtab->symbols = calloc((size_t)BASE_SIZE, sizeof(struct Symbol *));
-	if (!symtab->symbols)
+	if (!symtab->symbols) {
+		free(symtab);
 		return NULL;
+	}
 
 	symtab->size = BASE_SIZE;
 	symtab->count = 0;
@@ -143,8 +145,10 @@ static struct Symbol *init_symbol(const char *label, const int value)
 		return NULL;
 
 	sym->label = calloc(strlen(label) + 1, sizeof(char));
-	if (!sym->label)
+	if (!sym->label) {
+		free(sym);
 		return NULL;
+	}
 
 	memcpy(sym->label, label, strlen(label));
 	sym->value = value;
-- 
2.43.0


From a7f5e916acf1dd200db23282b97b86ea6de68913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 09/15] fix: refuse trailing tokens after an indexed operand

LDA $10,X) or LDA $10,X,Y were assembled as if the rest were not there.
---
 src/parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 2a2bc35..e81a67a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -111,8 +111,11 @@ int parse_instr_tree(struct Lexer *lexer, int index)
 			// OPERAND,X
 			// OPERAND,Y
 			if (seq[index]->type == TOKEN_X_REGISTER ||
-			    seq[index]->type == TOKEN_Y_REGISTER)
-				return PARSER_SUCCESS;
+			    seq[index]->type == TOKEN_Y_REGISTER) {
+				index++;
+				if (seq[index]->type == TOKEN_NULL)
+					return PARSER_SUCCESS;
+			}
 		}
 	}
 	// #
-- 
2.43.0


From 94e9b117a935c9f497877d7b9398cc11ebc690b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 10/15] fix: refuse indexed jumps to labels defined later

JMP FWD,X was assembled with an opcode that does not exist, while the
same line after the definition of FWD is an illegal addressing mode.
---
 src/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index e81a67a..8250e3b 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -564,7 +564,8 @@ int parse_forward_ref_addr_mode(struct Lexer *lexer, struct Instruction *instr)
 		instr->addr_bitflag = addr_mode & ADDR_MODE_RELATIVE;
 	} else if (instr->mnemonic == JMP) {
 		// JMP has two modes, so we AND with the FIELD!!!
-		instr->addr_bitflag = addr_mode & ABSOLUTE_FIELD;
+		instr->addr_bitflag = addr_mode & ABSOLUTE_FIELD &
+		                      instr->addr_bitfield;
 	} else if (instr->mnemonic == JSR) {
 		// JSR has only one mode
 		instr->addr_bitflag = addr_mode & ADDR_MODE_ABSOLUTE;
-- 
2.43.0


From 5787385e30b169346a8b8e42f8feff62ffa96eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 11/15] fix: refuse literals of any length that exceed two
 bytes

A literal whose value wrapped around 64 bits, such as $10000000000000001,
was assembled as its low bits.
---
 src/lexer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index b22e30b..01e3c5f 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -360,13 +360,16 @@ int lex_literal(const char *literal, struct Token *tk)
 	}
 
 	// analyze all the digits and convert to actual value
+	// once it exceeds 2 bytes, more digits can only make it overflow
 	unsigned long long total = 0;
 	int char_value;
 	while (*curr) {
 		char_value = (*converter_func)(*curr);
 		if (char_value != ERROR_ILLEGAL_CHAR) {
-			total *= base;
-			total += char_value;
+			if (total <= 0xFFFF) {
+				total *= base;
+				total += char_value;
+			}
 			num_chars++;
 			curr++;
 		} else if (!is_end_of_token(*curr)) {
-- 
2.43.0


From 15096fd7b69a6496a342df57c5e84548790f9b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 12/15] fix: write the dummy bytes of forward references at
 their address only

They were also written wherever the file happened to be positioned,
overwriting code assembled earlier when .ORG had moved backwards, or
extending the file past the program.
---
 src/main.c | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/main.c b/src/main.c
index 6074cd4..a04860f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -226,10 +226,6 @@ int main(int argc, char *argv[])
 		                               symtab);
 		if (IS_ERROR(operand_status))
 			ABORT_ASSEMBLY();
-		else if (operand_status == BRANCH_FORWARD_REFERENCE)
-			written_bytes = 2;
-		else if (operand_status == JUMP_FORWARD_REFERENCE)
-			written_bytes = 3;
 
 		return_code = parse_addr_mode(lexer, instr, operand,
 		                             operand_status);
@@ -244,12 +240,7 @@ int main(int argc, char *argv[])
 				            NULL, args.src_file, -1);
 				ABORT_ASSEMBLY();
 			}
-
-			// write dummy bytes
-			fputc(0x00, outf);
-			fputc(0x00, outf);
-			if (written_bytes == 3)
-				fputc(0x00, outf);
+			// dummy operand bytes are written with the opcode below
 		} else if (IS_ERROR(return_code)) {
 			ABORT_ASSEMBLY();
 		}
-- 
2.43.0


From b65817c2fac98d839a4b23a361d40bc8bdc87d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 13/15] fix: refuse branch offsets that do not fit in one byte

BNE $1234 was assembled as if only $34 had been written.
---
 src/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 8250e3b..897c462 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -639,7 +639,9 @@ int parse_addr_mode(struct Lexer *lexer, struct Instruction *instr,
 		// see comment above in parse_label_operand()
 		// operand value might be an absolute address, but a branch
 		// instruction always has an operand that fits in 1 byte
-		if (!is_branch(instr->mnemonic))
+		// a literal is not converted to an offset, so it must fit as is
+		if (!is_branch(instr->mnemonic) ||
+		    operand->type == TOKEN_LITERAL)
 			addr_mode = ABSOLUTE_FIELD;
 		else
 			addr_mode = ZERO_PAGE_FIELD;
-- 
2.43.0


From 842bd1623a0752c6e8428b91197b431555725083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 14/15] fix: refuse code past the end of the address space

Code assembled past $FFFF was written to the file, with every label
defined there silently cut to 16 bits.
---
 src/error.c |  4 ++++
 src/error.h |  1 +
 src/main.c  | 10 +++++++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index 79c8568..90a58b1 100644
--- a/src/error.c
+++ b/src/error.c
@@ -31,6 +31,7 @@ printed, which is aligned to the error in the source line.
 		ERROR_UNKNOWN
 		ERROR_ILLEGAL_ADDRESSING_MODE
 		ERROR_TOO_BIG_OFFSET
+		ERROR_TOO_BIG_ADDRESS
 */
 void print_error(const char *line, int error_code, const char *bad_char,
                  const char *file_name, int line_num)
@@ -85,6 +86,9 @@ void print_error(const char *line, int error_code, const char *bad_char,
 	case ERROR_BINARY_FILE_WRITE_FAIL:
 		printf("ERROR: assembled binary file could not be written\n");
 		break;
+	case ERROR_TOO_BIG_ADDRESS:
+		printf("ERROR: code exceeds the 64 KiB address space\n");
+		break;
 	case ERROR_MISSING_LABEL_DEFINITION:
 		printf("ERROR: label definition was not found\n");
 		break;
diff --git a/src/error.h b/src/error.h
index 92812d1..4a54840 100644
--- a/src/error.h
+++ b/src/error.h
@@ -41,6 +41,7 @@ Error codes used by the assembler. Also a prototype to print error messages.
 #define ERROR_ILLEGAL_BASE              -20
 #define ERROR_FILE_READ_FAIL            -21
 #define ERROR_BINARY_FILE_WRITE_FAIL    -22
+#define ERROR_TOO_BIG_ADDRESS           -23
 /*
 ;       ;       ;       ;       ;       ;
 */
diff --git a/src/main.c b/src/main.c
index a04860f..752ca8e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -107,6 +107,9 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 */
 #define IS_ERROR(code) ((code) < 0)
 
+// number of bytes the 6502 can address
+#define ADDRESS_SPACE 0x10000
+
 /* abort_gaia()
 	@inf            source file
 	@outf           assembled binary file
@@ -257,8 +260,13 @@ int main(int argc, char *argv[])
 		if (IS_ERROR(written_bytes))
 			ABORT_ASSEMBLY();
 
-		line_num++;
 		pc += written_bytes;
+		if (pc > ADDRESS_SPACE) {
+			print_error(buffer, ERROR_TOO_BIG_ADDRESS, NULL,
+			            args.src_file, line_num);
+			ABORT_ASSEMBLY();
+		}
+		line_num++;
 		total_bytes += written_bytes;
 	}
 
-- 
2.43.0


From f2f18329780b67438cd32110aa9f016ec28800cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:25 +0000
Subject: [PATCH 15/15] fix: symbol table load factor overflowed int beyond 21
 million labels

---
 src/symbol_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_table.c b/src/symbol_table.c
index a43e0d2..1464ac9 100644
--- a/src/symbol_table.c
+++ b/src/symbol_table.c
@@ -171,7 +171,7 @@ int insert_symbol(struct SymbolTable *symtab, const char *label,
 {
 	// check load factor first
 	// if you insert first then you might have to hash it again -- waste!
-	int load = ((symtab->count + 1) * 100) / symtab->size;
+	long long load = ((symtab->count + 1) * 100LL) / symtab->size;
 	if (load > 50) {
 		if (!resize_symbols(symtab))
 			return ERROR_MEMORY_ALLOCATION_FAIL;
-- 
2.43.0

