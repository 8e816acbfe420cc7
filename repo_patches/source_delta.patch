From 130c03bc49a7e21f89dee6c1d71265dd3ba4b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 01/45] fix: constrain relative values in constant time

---
 src/instr.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 911c0c8..fcccab3 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -79,11 +79,7 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
  * to be range tested. */
 
 static int to_rel16(int64_t i) {
-	while (i < -32768)
-		i += 65536;
-	while (i > 32767)
-		i -= 65536;
-	return i;
+	return (int)(((uint64_t)i + 0x8000) & 0xffff) - 0x8000;
 }
 
 void instr_rel(struct opcode const *op, struct node const *args) {
-- 
2.43.0


From 48af4184129a1210ecf388d6a77f5a5c187656e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 02/45] fix: encode the offset to address 0 in PCR relative
 indexed mode

---
 src/instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index fcccab3..5b6c6b5 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -287,7 +287,7 @@ static void instr_indexed2(_Bool indirect, struct node const *arg0, struct node
 		goto invalid_mode;
 	}
 
-	if (arg0_type == node_type_int && arg0_attr == node_attr_none
+	if (!pcr && arg0_type == node_type_int && arg0_attr == node_attr_none
 	    && arg0->data.as_int == 0) {
 		arg0_type = node_type_empty;
 	}
-- 
2.43.0


From e46293285ee3ff38cd30a04ae5326952c0326cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 03/45] fix: use the no-offset form for 0,W

---
 src/instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index 5b6c6b5..a176e1d 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -171,7 +171,7 @@ static struct {
 	{ idx_type_xyus, node_attr_none,     off_type_reg_e, 0x87, idx_indirect_ok },
 	{ idx_type_xyus, node_attr_none,     off_type_reg_f, 0x8a, idx_indirect_ok },
 	{ idx_type_xyus, node_attr_none,     off_type_reg_w, 0x8e, idx_indirect_ok },
-	{ idx_type_w,    node_attr_none,     off_type_none,  0x8f, idx_indirect_ok_6309 },
+	{ idx_type_w,    node_attr_none,     off_type_zero,  0x8f, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_none,     off_type_16bit, 0xaf, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_postinc2, off_type_none,  0xcf, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_predec2,  off_type_none,  0xef, idx_indirect_ok_6309 },
-- 
2.43.0


From aa1a62fc7f08a30873534f1b02015b5ac93abba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 04/45] fix: reject registers without an inter-register code,
 initialise codes of undefined operands

---
 src/instr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/instr.c b/src/instr.c
index a176e1d..2048980 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -540,6 +540,10 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		if (type[i] == node_type_reg) {
 			nibble[i] = reg_tfr_nibble[arga[i]->data.as_reg];
 			size[i] = reg_tfr_size[arga[i]->data.as_reg];
+			if (nibble[i] < 0) {
+				error(error_type_syntax, "invalid register in inter-register op");
+				return;
+			}
 		} else if (type[i] == node_type_int) {
 			int v = arga[i]->data.as_int;
 			if (v == 0 && asm6809_options.isa == asm6809_isa_6309) {
@@ -557,6 +561,9 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		} else if (type[i] != node_type_undef) {
 			error(error_type_syntax, "invalid register in inter-register op");
 			return;
+		} else {
+			nibble[i] = 0;
+			size[i] = 16 | 8;
 		}
 	}
 	if ((size[0] & size[1]) == 0) {
@@ -604,6 +611,8 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 		} else if (type[i] != node_type_undef) {
 			error(error_type_syntax, "invalid register in inter-register op");
 			return;
+		} else {
+			nibble[i] = 0;
 		}
 	}
 
-- 
2.43.0


From f1ea8dabe9178656a80455e836e584b22ad09c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 05/45] fix: diagnose operands that are not usable as a value

---
 src/instr.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 2048980..cdd7103 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -59,6 +59,8 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
 	if (tmp) {
 		value = tmp->data.as_int;
 		node_free(tmp);
+	} else if (node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid immediate value");
 	}
 	if ((op->type & OPCODE_EXT_TYPE) == OPCODE_IMM8)
 		section_emit_uint8(value);
@@ -89,8 +91,14 @@ void instr_rel(struct opcode const *op, struct node const *args) {
 		error(error_type_syntax, "invalid number of arguments");
 		return;
 	}
+	if (node_attr_of(arga[0]) == node_attr_immediate) {
+		error(error_type_syntax, "invalid addressing mode");
+		return;
+	}
 	section_emit_op(op->immediate);
 	if (node_type_of(arga[0]) != node_type_int) {
+		if (node_type_of(arga[0]) != node_type_undef)
+			error(error_type_syntax, "invalid branch target");
 		if ((op->type & OPCODE_EXT_TYPE) == OPCODE_REL8)
 			section_emit_pad(1);
 		else
@@ -440,6 +448,9 @@ void instr_address(struct opcode const *op, struct node const *args, int imm8_va
 		attr = arg->attr;
 		addr = arg->data.as_int & 0xffff;
 		node_free(arg);
+	} else if (node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid addressing mode");
+		return;
 	}
 
 	if ((op->type & OPCODE_DIRECT)) {
@@ -478,8 +489,13 @@ void instr_imm8_mem(struct opcode const *op, struct node const *args) {
 		return;
 	}
 	int imm8_val = 0;
-	if (node_type_of(arga[0]) == node_type_int)
-		imm8_val = arga[0]->data.as_int;
+	struct node *tmp = eval_int(arga[0]);
+	if (tmp) {
+		imm8_val = tmp->data.as_int;
+		node_free(tmp);
+	} else if (node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid immediate value");
+	}
 	struct node *newa = node_new_array();
 	newa->data.as_array.nargs = nargs - 1;
 	newa->data.as_array.args = arga + 1;
@@ -676,6 +692,12 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 		goto invalid_register;
 	}
 
+	for (int i = 1; i < 4; i++) {
+		if (node_type_of(arga[i]) != node_type_int && node_type_of(arga[i]) != node_type_undef) {
+			error(error_type_syntax, "invalid argument in register-memory operation");
+			return;
+		}
+	}
 	if (node_type_of(arga[1]) == node_type_int) {
 		if (arga[1]->data.as_int < 0 || arga[1]->data.as_int > 7) {
 			error(error_type_out_of_range, "bad source bit");
-- 
2.43.0


From fd5531e998c1ba65c39f94c4dbcc5144146c37c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 06/45] fix: diagnose modulo by zero and shift counts outside
 0..63

---
 src/eval.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 2b9f9b2..1b2a4e2 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -494,13 +494,25 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 		switch (n->data.as_oper.oper) {
 		case '%':
-			ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			if (rightn->data.as_int == 0) {
+				error(error_type_out_of_range, "modulo by zero");
+				ret = NULL;
+			} else if (rightn->data.as_int == -1) {
+				ret = node_new_int(0);
+			} else {
+				ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			}
 			break;
 		case SHL:
-			ret = node_new_int(leftn->data.as_int << rightn->data.as_int);
-			break;
 		case SHR:
-			ret = node_new_int(leftn->data.as_int >> rightn->data.as_int);
+			if (rightn->data.as_int < 0 || rightn->data.as_int > 63) {
+				error(error_type_out_of_range, "invalid shift count");
+				ret = NULL;
+			} else if (n->data.as_oper.oper == SHL) {
+				ret = node_new_int((uint64_t)leftn->data.as_int << rightn->data.as_int);
+			} else {
+				ret = node_new_int(leftn->data.as_int >> rightn->data.as_int);
+			}
 			break;
 		case '&':
 			ret = node_new_int(leftn->data.as_int & rightn->data.as_int);
-- 
2.43.0


From 5ca2d0eaccaf2689125be9fc78ea68b581259c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 07/45] fix: diagnose division by zero

---
 src/eval.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 1b2a4e2..0a01503 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -444,7 +444,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 			ret = node_new_float(leftn->data.as_float * rightn->data.as_float);
 			break;
 		case '/':
-			ret = node_new_float(leftn->data.as_float / rightn->data.as_float);
+			if (rightn->data.as_float == 0.0) {
+				error(error_type_out_of_range, "division by zero");
+				ret = NULL;
+			} else {
+				ret = node_new_float(leftn->data.as_float / rightn->data.as_float);
+			}
 			break;
 		case '+':
 			ret = node_new_float(leftn->data.as_float + rightn->data.as_float);
-- 
2.43.0


From 4c4f5639516fa1aa60a930ab5cf39141dc03a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 08/45] fix: treat strings as integers in every operator that
 is not a comparison

---
 src/eval.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 0a01503..8134c82 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -259,6 +259,14 @@ struct node *eval_int_free(struct node *n) {
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+static struct node *string_to_int(struct node *n) {
+	if (node_type_of(n) != node_type_string)
+		return n;
+	struct node *new = eval_int(n);
+	node_free(n);
+	return new;
+}
+
 static struct node *eval_node_oper_1(struct node *n) {
 	struct node *ret = NULL;
 	struct node *arg;
@@ -375,12 +383,18 @@ static struct node *eval_node_oper_2(struct node *n) {
 			ret = node_new_int(strcmp(leftn->data.as_string, rightn->data.as_string) != 0);
 			break;
 		default:
+			/* Otherwise treat both as integers */
+			leftn = string_to_int(leftn);
+			rightn = string_to_int(rightn);
+			string_op = 0;
 			ret = NULL;
 			break;
 		}
-		node_free(leftn);
-		node_free(rightn);
-		return ret;
+		if (string_op) {
+			node_free(leftn);
+			node_free(rightn);
+			return ret;
+		}
 	}
 
 	_Bool int_only = (leftn->type == node_type_int && rightn->type == node_type_int);
@@ -564,8 +578,11 @@ static struct node *eval_node_oper_3(struct node *n) {
 	if (!(condn = eval_node(n->data.as_oper.args[0])))
 		return NULL;
 
-	if (!(condn = eval_int_free(condn)))
+	condn = string_to_int(condn);
+	if (!(condn = eval_int_free(condn))) {
+		error(error_type_syntax, "invalid operand type");
 		return NULL;
+	}
 
 	if (condn->data.as_int != 0) {
 		ret = eval_node(n->data.as_oper.args[1]);
-- 
2.43.0


From b1b1d05dfcebf0e4cc6b3aa41aebb61ff09ced01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 09/45] fix: diagnose operators applied to operands of an
 unusable kind

---
 src/eval.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 8134c82..0daa931 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -293,6 +293,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 			ret = node_new_float(-arg->data.as_float);
 			break;
 		default:
+			error(error_type_syntax, "invalid operand type");
 			break;
 		}
 		break;
@@ -303,6 +304,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 		case node_type_float:
 			return arg;
 		default:
+			error(error_type_syntax, "invalid operand type");
 			break;
 		}
 		break;
@@ -312,7 +314,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 		if (arg) {
 			ret = node_new_int(!arg->data.as_int);
 		} else {
-			ret = node_new_int(1);
+			error(error_type_syntax, "invalid operand type");
 		}
 		break;
 
@@ -320,6 +322,8 @@ static struct node *eval_node_oper_1(struct node *n) {
 		arg = eval_int_free(arg);
 		if (arg) {
 			ret = node_new_int(~arg->data.as_int);
+		} else {
+			error(error_type_syntax, "invalid operand type");
 		}
 		break;
 
@@ -445,10 +449,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 		}
 
 		if (!(leftn = eval_float_free(leftn))) {
+			error(error_type_syntax, "invalid operand type");
 			node_free(rightn);
 			return NULL;
 		}
 		if (!(rightn = eval_float_free(rightn))) {
+			error(error_type_syntax, "invalid operand type");
 			node_free(leftn);
 			return NULL;
 		}
@@ -503,10 +509,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 	case LAND: case LOR:
 
 		if (!(leftn = eval_int_free(leftn))) {
+			error(error_type_syntax, "invalid operand type");
 			node_free(rightn);
 			return NULL;
 		}
 		if (!(rightn = eval_int_free(rightn))) {
+			error(error_type_syntax, "invalid operand type");
 			node_free(leftn);
 			return NULL;
 		}
-- 
2.43.0


From bab715aaa2205f14d2bdb8a95ffbe900a0cf0e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 10/45] fix: diagnose values that cannot be pasted or exported

---
 src/assemble.c | 2 ++
 src/eval.c     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index f476ba1..b364974 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -716,6 +716,8 @@ static void pseudo_export(struct prog_line *line) {
 		if (n) {
 			prog_export(n->data.as_string);
 			node_free(n);
+		} else {
+			error(error_type_syntax, "invalid argument to EXPORT");
 		}
 	}
 }
diff --git a/src/eval.c b/src/eval.c
index 0daa931..e629680 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -162,6 +162,7 @@ struct node *eval_string(struct node *n) {
 			break;
 		case node_type_reg:
 			if (tmp->attr != node_attr_none) {
+				error(error_type_syntax, "invalid value in symbol name or string");
 				node_free(tmp);
 				node_free(out);
 				return NULL;
@@ -169,6 +170,7 @@ struct node *eval_string(struct node *n) {
 			addtext = xstrdup(reg_id_to_name(tmp->data.as_reg));
 			break;
 		default:
+			error(error_type_syntax, "invalid value in symbol name or string");
 			node_free(tmp);
 			node_free(out);
 			return NULL;
-- 
2.43.0


From da8c6cb08e7e52de0a721ca2cb1e69da3fa207f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 11/45] fix: do not sign-extend characters

---
 src/eval.c | 2 +-
 src/lex.l  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index e629680..2618a6e 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -208,7 +208,7 @@ struct node *eval_int(struct node *n) {
 		{
 			uint32_t value = 0;
 			for (const char *s = n->data.as_string; *s; s++)
-				value = (value << 8) | *s;
+				value = (value << 8) | (uint8_t)*s;
 			return node_set_attr(node_new_int(value), n->attr);
 		}
 	default:
diff --git a/src/lex.l b/src/lex.l
index 3bddbf3..42f7212 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -69,8 +69,8 @@ rword	[A-Za-z0-9_\.]+
 {decimal}	{ yylval.as_int = strtoimax(yytext, NULL, 10); return INTEGER; }
 ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 0x{hexdigit}+	{ yylval.as_int = strtoimax(yytext+2, NULL, 16); return INTEGER; }
-'.'		{ yylval.as_int = *(yytext+1); return INTEGER; }
-'.		{ yylval.as_int = *(yytext+1); return INTEGER; }
+'.'		{ yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
+'.		{ yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
 \!		{ yylval.as_int = 0; return INTEGER; }
 
 {word}		{ return id_or_reg(); }
@@ -151,8 +151,8 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {decimal}	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return INTEGER; }
 ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 0x{hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+2, NULL, 16); return INTEGER; }
-'.'		{ BEGIN(argnostr); yylval.as_int = *(yytext+1); return INTEGER; }
-'.		{ BEGIN(argnostr); yylval.as_int = *(yytext+1); return INTEGER; }
+'.'		{ BEGIN(argnostr); yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
+'.		{ BEGIN(argnostr); yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
 [0-9]*\.[0-9]+	|
 {decimal}\.	{ BEGIN(argnostr); yylval.as_float = strtod(yytext, NULL); return FLOAT; }
 
-- 
2.43.0


From efada1003791a8e70c4200960b22a4292b4a5c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 12/45] fix: use the value given to --setdp

---
 src/asm6809.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 55e2143..cf933b5 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -65,7 +65,7 @@ static struct option long_options[] = {
 	{ "6809", no_argument, &isa, asm6809_isa_6809 },
 	{ "6309", no_argument, &isa, asm6809_isa_6309 },
 	{ "define", required_argument, NULL, 'd' },
-	{ "setdp", required_argument, &setdp, 0 },
+	{ "setdp", required_argument, NULL, 'p' },
 	{ "max-passes", required_argument, NULL, 'P' },
 	{ "output", required_argument, NULL, 'o' },
 	{ "listing", required_argument, NULL, 'l' },
@@ -123,6 +123,21 @@ int main(int argc, char **argv) {
 		case 'd':
 			define_symbol(optarg);
 			break;
+		case 'p':
+			{
+				struct node *n = simple_parse_int(optarg);
+				if (n) {
+					setdp = n->data.as_int & 0xff;
+					node_free(n);
+				} else if (optarg[0] == '-') {
+					setdp = -1;
+				} else {
+					error(error_type_fatal, "invalid value for setdp");
+					error_print_list();
+					tidy_up_and_exit(EXIT_FAILURE);
+				}
+			}
+			break;
 		case 'P':
 			{
 				long v = strtol(optarg, NULL, 0);
-- 
2.43.0


From d3258aa75d5c6906fe4a07faaf71c1980698d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 13/45] fix: check the whole argument of --max-passes

---
 src/asm6809.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index cf933b5..931674a 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -140,8 +140,10 @@ int main(int argc, char **argv) {
 			break;
 		case 'P':
 			{
-				long v = strtol(optarg, NULL, 0);
-				if (errno != 0 || v < 2 || v > 255) {
+				char *end;
+				errno = 0;
+				long v = strtol(optarg, &end, 0);
+				if (errno != 0 || end == optarg || *end != 0 || v < 2 || v > 255) {
 					error(error_type_fatal, "invalid value for max-passes");
 					error_print_list();
 					tidy_up_and_exit(EXIT_FAILURE);
-- 
2.43.0


From 824ac296fe5f07963f6ea9c138bd61f7dabc46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 14/45] fix: diagnose malformed numbers in options

---
 src/asm6809.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 931674a..e63502a 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -323,24 +323,30 @@ int main(int argc, char **argv) {
 
 /* Special parsing of arguments.  Integers only for now. */
 static struct node *simple_parse_int(const char *str) {
-	struct node *n = NULL;
+	int base = 10;
 	if (str[0] == '$') {
-		n = node_new_int(strtol(str+1, NULL, 16));
+		str++;
+		base = 16;
 	} else if (str[0] == '@') {
-		n = node_new_int(strtol(str+1, NULL, 8));
+		str++;
+		base = 8;
 	} else if (str[0] == '%') {
-		n = node_new_int(strtol(str+1, NULL, 2));
-	} else if (str[0] == '0') {
-		if (str[1] == 'x')
-			n = node_new_int(strtol(str+2, NULL, 16));
-		else if (str[1] == 'b')
-			n = node_new_int(strtol(str+2, NULL, 2));
-		else
-			n = node_new_int(strtol(str, NULL, 10));
-	} else if (str[0] >= '0' && str[0] <= '9') {
-		n = node_new_int(strtol(str, NULL, 10));
+		str++;
+		base = 2;
+	} else if (str[0] == '0' && str[1] == 'x') {
+		str += 2;
+		base = 16;
+	} else if (str[0] == '0' && str[1] == 'b') {
+		str += 2;
+		base = 2;
+	} else if (str[0] < '0' || str[0] > '9') {
+		return NULL;
 	}
-	return n;
+	char *end;
+	long v = strtol(str, &end, base);
+	if (end == str || *end != 0)
+		return NULL;
+	return node_new_int(v);
 }
 
 static void define_symbol(const char *str) {
@@ -350,6 +356,8 @@ static void define_symbol(const char *str) {
 	if (tmp) {
 		*(tmp++) = 0;
 		value = simple_parse_int(tmp);
+		if (!value)
+			error(error_type_fatal, "invalid value for symbol '%s'", key);
 	} else {
 		value = node_new_int(1);
 	}
-- 
2.43.0


From ca31438a92c4c098737c384487b9f0d5768813f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 15/45] fix: report failure to open or write an output file

---
 src/asm6809.c | 18 ++++++------------
 src/output.c  | 39 +++++++++++++++++++++++++++++----------
 src/output.h  |  6 ++++++
 3 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index e63502a..492d554 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -232,12 +232,10 @@ int main(int argc, char **argv) {
 
 	/* Generate listing file */
 	if (listing_filename) {
-		FILE *listf = fopen(listing_filename, "wb");
+		FILE *listf = output_open(listing_filename);
 		if (listf) {
 			listing_print(listf);
-			fclose(listf);
-		} else {
-			error(error_type_fatal, "%s: %s", listing_filename, strerror(errno));
+			output_close(listf, listing_filename);
 		}
 	}
 
@@ -289,23 +287,19 @@ int main(int argc, char **argv) {
 
 	/* Generate exports file */
 	if (exports_filename) {
-		FILE *expf = fopen(exports_filename, "wb");
+		FILE *expf = output_open(exports_filename);
 		if (expf) {
 			prog_print_exports(expf);
-			fclose(expf);
-		} else {
-			error(error_type_fatal, "%s: %s", exports_filename, strerror(errno));
+			output_close(expf, exports_filename);
 		}
 	}
 
 	/* Generate symbols file */
 	if (symbol_filename) {
-		FILE *symf = fopen(symbol_filename, "wb");
+		FILE *symf = output_open(symbol_filename);
 		if (symf) {
 			prog_print_symbols(symf);
-			fclose(symf);
-		} else {
-			error(error_type_fatal, "%s: %s", symbol_filename, strerror(errno));
+			output_close(symf, symbol_filename);
 		}
 	}
 
diff --git a/src/output.c b/src/output.c
index a68f2ec..367afd3 100644
--- a/src/output.c
+++ b/src/output.c
@@ -13,9 +13,11 @@ option) any later version.
 #include "config.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "error.h"
 #include "eval.h"
@@ -25,6 +27,23 @@ option) any later version.
 #include "slist.h"
 #include "symbol.h"
 
+/* Open & close files for writing, reporting any failure. */
+
+FILE *output_open(const char *filename) {
+	FILE *f = fopen(filename, "wb");
+	if (!f)
+		error(error_type_fatal, "%s: %s", filename, strerror(errno));
+	return f;
+}
+
+void output_close(FILE *f, const char *filename) {
+	_Bool failed = ferror(f);
+	if (fclose(f) != 0)
+		failed = 1;
+	if (failed)
+		error(error_type_fatal, "%s: write failed", filename);
+}
+
 /* Helper that dumps a single binary blob to file. */
 
 static void write_single_binary(FILE *f, struct section_span *span) {
@@ -48,7 +67,7 @@ static int get_exec_addr(void) {
 /* Output format: Plain binary.  All coalesced into one big blob. */
 
 void output_binary(const char *filename) {
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -59,7 +78,7 @@ void output_binary(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: DragonDOS binary. */
@@ -67,7 +86,7 @@ void output_binary(const char *filename) {
 void output_dragondos(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -96,7 +115,7 @@ void output_dragondos(const char *filename) {
 		write_single_binary(f, span);
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: CoCo RSDOS binary. */
@@ -110,7 +129,7 @@ void output_dragondos(const char *filename) {
 void output_coco(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -137,7 +156,7 @@ void output_coco(const char *filename) {
 	fputc(exec_addr  & 0xff, f);
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: Motorola SREC. */
@@ -145,7 +164,7 @@ void output_coco(const char *filename) {
 void output_motorola_srec(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -180,7 +199,7 @@ void output_motorola_srec(const char *filename) {
         }
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: Intel HEX. */
@@ -188,7 +207,7 @@ void output_motorola_srec(const char *filename) {
 void output_intel_hex(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -223,5 +242,5 @@ void output_intel_hex(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
diff --git a/src/output.h b/src/output.h
index ed9ffba..a48cae7 100644
--- a/src/output.h
+++ b/src/output.h
@@ -13,10 +13,16 @@ option) any later version.
 #ifndef ASM6809_OUTPUT_H_
 #define ASM6809_OUTPUT_H_
 
+#include <stdio.h>
+
 /*
  * Write assembled data to a variety of output formats.
  */
 
+/* Open & close files for writing, reporting any failure. */
+FILE *output_open(const char *filename);
+void output_close(FILE *f, const char *filename);
+
 /* Output format: Binary. */
 void output_binary(const char *filename);
 
-- 
2.43.0


From 2c2bd7d0abeb815ffea56359da5e02817fbb6d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 16/45] fix: fail if an exported symbol is not defined

---
 src/asm6809.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 492d554..0d9a14b 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -304,7 +304,7 @@ int main(int argc, char **argv) {
 	}
 
 	/* Any errors in all that? */
-	if (error_level >= error_type_syntax) {
+	if (error_level >= error_type_inconsistent) {
 		error_print_list();
 		tidy_up_and_exit(EXIT_FAILURE);
 	}
-- 
2.43.0


From e05cdf732c54efecf3dfdb9135d564cde0d5ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 17/45] fix: an unstable put address is an inconsistency

---
 src/section.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/section.c b/src/section.c
index 38271b9..0bbcd51 100644
--- a/src/section.c
+++ b/src/section.c
@@ -143,7 +143,7 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
-	if (sect->last_pc != sect->pc) {
+	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
 		error(error_type_inconsistent, NULL);
-- 
2.43.0


From 89a356af11d192a00194d8926bd1fd1630ac1909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 18/45] fix: error level must not depend on the order of
 inconsistency and range errors

---
 src/error.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/error.c b/src/error.c
index 3d7e764..4d8ae3b 100644
--- a/src/error.c
+++ b/src/error.c
@@ -44,12 +44,17 @@ static struct slist **error_list_next = &error_list;
 
 static void verror(enum error_type type, const char *fmt, va_list ap) {
 	struct error *err = NULL;
-	if (type > error_level) {
-		error_level = type;
-	}
+	/* Out of range values may be due to an inconsistency, in which case
+	 * another pass is needed whichever is found first. */
 	if (type == error_type_inconsistent &&
-	    error_level == error_type_out_of_range)
+	    error_level == error_type_out_of_range) {
+		error_level = error_type_inconsistent;
+	} else if (type == error_type_out_of_range &&
+		   error_level == error_type_inconsistent) {
 		error_level = error_type_inconsistent;
+	} else if (type > error_level) {
+		error_level = type;
+	}
 	if (fmt) {
 		err = xmalloc(sizeof(*err));
 		err->type = type;
-- 
2.43.0


From 91b7769f7b3a09f6ea777e7ba5e79e7ee2641f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 19/45] fix: list the bytes of data emitted after PUT

---
 src/assemble.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index b364974..1a06265 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -488,9 +488,11 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		op_handler = dict_lookup(pseudo_data_dict, n_line.opcode->data.as_string);
 		if (op_handler) {
 			int old_pc = cur_section->pc;
+			struct section_span *old_span = cur_section->span;
+			unsigned old_size = old_span ? old_span->size : 0;
 			op_handler(&n_line);
 			int nbytes = cur_section->pc - old_pc;
-			if (cur_section->span && cur_section->pc == (int)(cur_section->span->put + cur_section->span->size))
+			if (cur_section->span && (cur_section->span != old_span || cur_section->span->size != old_size))
 				listing_add_line(old_pc & 0xffff, nbytes, cur_section->span, l->text);
 			else
 				listing_add_line(old_pc & 0xffff, nbytes, NULL, l->text);
-- 
2.43.0


From afe713e577c7d54f1c919a10138cefe399a1e12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 20/45] fix: forget an unfinished macro definition at the end
 of its file

---
 src/assemble.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 1a06265..7a1f602 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -567,6 +567,16 @@ next_line:
 		node_free(n_line.args);
 	}
 
+	/* A macro has to be finished in the file or macro it was started in */
+	if (defining_macro_level > 0) {
+		error(error_type_syntax, "unfinished macro");
+		if (defining_macro_ctx) {
+			prog_ctx_free(defining_macro_ctx);
+			defining_macro_ctx = NULL;
+		}
+		defining_macro_level = 0;
+	}
+
 	if (cond_list) {
 		slist_free(cond_list);
 		error(error_type_syntax, "IF not matched with ENDIF");
-- 
2.43.0


From b8ccf474bcb717b463e8f1c47a9c5728dc14d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 21/45] fix: do not crash listing an empty symbol table

---
 src/symbol.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbol.c b/src/symbol.c
index b3ef68e..bddc29c 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -115,6 +115,8 @@ static void add_to_list(const char *key, struct node *value, struct slist **l) {
 
 struct slist *symbol_get_list(void) {
 	struct slist *l = NULL;
+	if (!symbols)
+		return NULL;
 	dict_foreach(symbols, (dict_iter_func)add_to_list, &l);
 	return l;
 }
-- 
2.43.0


From 1c3ed0f25fba3ef5bd79a5cfccafbbc009468b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 22/45] fix: do not write the internal exec symbol to the
 symbols file

---
 src/symbol.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/symbol.c b/src/symbol.c
index bddc29c..6c9862c 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -110,6 +110,9 @@ struct node *symbol_get(const char *key) {
 
 static void add_to_list(const char *key, struct node *value, struct slist **l) {
 	(void)value;
+	/* Used internally for the exec address, not a valid name */
+	if (0 == strcmp(key, ".exec"))
+		return;
 	*l = slist_prepend(*l, (void *)key);
 }
 
-- 
2.43.0


From c211db2249cb9c641a408be338cbfaefcf7d890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 23/45] fix: diagnose every repeated ELSE

---
 src/assemble.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 7a1f602..57adf96 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -416,14 +416,14 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 				error(error_type_syntax, "ELSE without IF");
 			} else if ((intptr_t)cond_list->data == cond_state_else) {
 				error(error_type_syntax, "repeated ELSE");
-			} else if (cond_excluded == cond_list) {
-				if ((intptr_t)cond_list->data != cond_state_if_done) {
-					cond_list->data = (void *)cond_state_else;
+			} else {
+				if (!cond_excluded) {
+					cond_excluded = cond_list;
+				} else if (cond_excluded == cond_list &&
+					   (intptr_t)cond_list->data != cond_state_if_done) {
 					cond_excluded = NULL;
 				}
-			} else if (!cond_excluded) {
 				cond_list->data = (void *)cond_state_else;
-				cond_excluded = cond_list;
 			}
 			goto next_line;
 		}
-- 
2.43.0


From d76857874638f8fb4c6f54b5535a19788bdee1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 24/45] fix: diagnose addresses and counts beyond addressable
 memory

---
 src/assemble.c | 25 +++++++++++++++++++++++++
 src/section.c  | 15 ++++++++++-----
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 57adf96..1ba1e40 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -651,6 +651,10 @@ static void pseudo_org(struct prog_line *line) {
 	if (verify_num_args(line->args, 1, 1, "ORG") < 0)
 		return;
 	long new_pc = have_int_required(line->args, 0, "ORG", cur_section->pc);
+	if (new_pc < -0x10000 || new_pc > 0x10000) {
+		error(error_type_out_of_range, "invalid address for ORG");
+		return;
+	}
 	cur_section->pc = new_pc;
 	if (new_pc >= 0)
 		cur_section->put = new_pc;
@@ -698,6 +702,10 @@ static void pseudo_put(struct prog_line *line) {
 		error(error_type_out_of_range, "invalid negative address for PUT");
 		return;
 	}
+	if (new_put > 0x10000) {
+		error(error_type_out_of_range, "invalid address for PUT");
+		return;
+	}
 	cur_section->put = new_put;
 }
 
@@ -881,6 +889,15 @@ static void pseudo_fqb(struct prog_line *line) {
 	}
 }
 
+/* More bytes than fit into the address space can't be asked for. */
+
+static _Bool verify_count(long count, const char *op) {
+	if (count <= 0x10000)
+		return 1;
+	error(error_type_out_of_range, "argument to '%s' too large", op);
+	return 0;
+}
+
 /* RZB.  Reserve zero bytes.  Additional argument specifies a non-zero fill
  * value. */
 
@@ -892,6 +909,8 @@ static void pseudo_rzb(struct prog_line *line) {
 	if (count < 0) {
 		error(error_type_out_of_range, "negative count for RZB");
 	}
+	if (!verify_count(count, "RZB"))
+		return;
 	for (long i = 0; i < count; i++)
 		section_emit_uint8(fill);
 }
@@ -906,6 +925,8 @@ static void pseudo_fill(struct prog_line *line) {
 	if (count < 0) {
 		error(error_type_out_of_range, "negative count for FILL");
 	}
+	if (!verify_count(count, "FILL"))
+		return;
 	for (long i = 0; i < count; i++)
 		section_emit_uint8(fill);
 }
@@ -920,6 +941,8 @@ static void pseudo_rmb(struct prog_line *line) {
 		error(error_type_out_of_range, "negative argument to RMB");
 		return;
 	}
+	if (!verify_count(count, "RMB"))
+		return;
 	section_skip(count);
 }
 
@@ -935,6 +958,8 @@ static void pseudo_align(struct prog_line *line) {
 		error(error_type_out_of_range, "invalid argument to ALIGN");
 		return;
 	}
+	if (!verify_count(align, "ALIGN"))
+		return;
 	long count = (align - (cur_section->pc % align)) % align;
 	if (nargs < 2) {
 		section_skip(count);
diff --git a/src/section.c b/src/section.c
index 0bbcd51..31103e6 100644
--- a/src/section.c
+++ b/src/section.c
@@ -239,6 +239,11 @@ static void section_emit(uint8_t const *buf, int nbytes) {
 	assert(cur_section != NULL);
 	struct section_span *span = cur_section->span;
 
+	if (cur_section->pc + nbytes > 0x10000 || cur_section->put + nbytes > 0x10000) {
+		error(error_type_out_of_range, "assembling beyond addressable memory");
+		return;
+	}
+
 	if (!span || (cur_section->put != next_put(span)) ||
 	    (cur_section->pc != next_pc(span))) {
 		if (!span || span->size != 0) {
@@ -257,7 +262,7 @@ static void section_emit(uint8_t const *buf, int nbytes) {
 	cur_section->put += nbytes;
 	cur_section->pc += nbytes;
 
-	if (cur_section->pc >= (int)(span->org + span->allocated)) {
+	if (span->size + nbytes > span->allocated) {
 		span->allocated += 128;
 		span->data = xrealloc(span->data, span->allocated);
 	}
@@ -268,10 +273,6 @@ static void section_emit(uint8_t const *buf, int nbytes) {
 		memcpy(&span->data[span->size], buf, nbytes);
 	}
 	span->size += nbytes;
-
-	if (cur_section->pc > 0x10000) {
-		error(error_type_out_of_range, "assembling beyond addressable memory");
-	}
 }
 
 void section_emit_pad(int nbytes) {
@@ -300,6 +301,10 @@ void section_emit_uint32(uint32_t v) {
 
 void section_skip(int nbytes) {
 	assert(cur_section != NULL);
+	if (cur_section->pc + nbytes > 0x10000 || cur_section->put + nbytes > 0x10000) {
+		error(error_type_out_of_range, "reserving beyond addressable memory");
+		return;
+	}
 	cur_section->put += nbytes;
 	cur_section->pc += nbytes;
 }
-- 
2.43.0


From c7658ffdb0334b1eee28beea527bd0f7a3467ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:59 +0000
Subject: [PATCH 25/45] fix: report failure to read an INCLUDEBIN file

---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 1ba1e40..ef6c2ba 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1011,6 +1011,8 @@ static void pseudo_includebin(struct prog_line *line) {
 	while ((c = fgetc(f)) != EOF) {
 		section_emit_uint8(c);
 	}
+	if (ferror(f))
+		error(error_type_fatal, "error reading %s", arga[0]->data.as_string);
 	fclose(f);
 }
 
-- 
2.43.0


From ecb5fe14e2e6b61e097de1fdc1b8bf10ad1facde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 26/45] fix: check the type of the exec address

---
 src/asm6809.c | 11 ++++++++---
 src/output.c  |  8 ++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 0d9a14b..0a9cc2b 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -26,6 +26,7 @@ option) any later version.
 #include "asm6809.h"
 #include "assemble.h"
 #include "error.h"
+#include "eval.h"
 #include "listing.h"
 #include "node.h"
 #include "opcode.h"
@@ -246,12 +247,16 @@ int main(int argc, char **argv) {
 		if (!n) {
 			unsigned v = 0;
 			struct node *tmp = symbol_get(exec_option);
-			if (tmp) {
-				v = tmp->data.as_int & 0xffff;
-				node_free(tmp);
+			struct node *addr = eval_int(tmp);
+			if (addr) {
+				v = addr->data.as_int & 0xffff;
+				node_free(addr);
+			} else if (tmp) {
+				error(error_type_fatal, "exec symbol '%s' is not a number", exec_option);
 			} else {
 				error(error_type_fatal, "exec symbol '%s' not defined", exec_option);
 			}
+			node_free(tmp);
 			n = node_new_int(v);
 		}
 		symbol_force_set(".exec", n, 0, max_passes);
diff --git a/src/output.c b/src/output.c
index 367afd3..f7aae4d 100644
--- a/src/output.c
+++ b/src/output.c
@@ -57,8 +57,12 @@ static int get_exec_addr(void) {
 	struct node *n = symbol_try_get(".exec");
 	int ret = -1;
 	if (n) {
-		if (n->data.as_int >= 0)
-			ret = n->data.as_int & 0xffff;
+		struct node *addr = eval_int(n);
+		if (!addr)
+			error(error_type_data, "invalid exec address");
+		else if (addr->data.as_int >= 0)
+			ret = addr->data.as_int & 0xffff;
+		node_free(addr);
 		node_free(n);
 	}
 	return ret;
-- 
2.43.0


From 511af82184921b3564ef8fce31699444fadd3a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 27/45] fix: track changes to the END address like those to any
 symbol

---
 src/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index ef6c2ba..bcfd23d 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1069,7 +1069,7 @@ static void pseudo_end(struct prog_line *line) {
 	if (nargs < 1)
 		return;
 	struct node **arga = node_array_of(line->args);
-	symbol_set(".exec", arga[0], asm_pass, 0);
+	symbol_set(".exec", arga[0], 0, asm_pass);
 }
 
 /* Ignore certain historical pseudo-ops */
-- 
2.43.0


From 7c2da5d75056b7f0a2e12909c88adcb568353987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 28/45] fix: relational operators bind tighter than equality,
 as documented

---
 src/grammar.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index b679585..c967eb4 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -79,8 +79,8 @@ static void check_end_opcode(struct prog_line *line);
 %left '|'
 %left '^'
 %left '&'
-%left '<' LE '>' GE
 %left EQ NE
+%left '<' LE '>' GE
 %left SHL SHR
 %left '+' '-'
 %left '*' '/' '%'
-- 
2.43.0


From 3e1135e8a8f09b6591e8eb8f0a9db4405db8244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 29/45] fix: report failure of the parser

---
 src/grammar.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index c967eb4..c47e34a 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -207,7 +207,8 @@ struct prog *grammar_parse_file(const char *filename) {
 	}
 	struct prog *prog = prog_new(prog_type_file, filename);
 	cur_ctx = prog_ctx_new(prog);
-	yyparse();
+	if (yyparse() != 0)
+		error(error_type_fatal, "%s: parse failed", filename);
 	prog_ctx_free(cur_ctx);
 	cur_ctx = NULL;
 	if (yyin)
-- 
2.43.0


From c9ca04ceb28cc70faff44587f0b55515a1120e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 30/45] fix: export every operator of macro expressions

---
 src/node.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/node.c b/src/node.c
index 0d7af50..1b031ea 100644
--- a/src/node.c
+++ b/src/node.c
@@ -295,6 +295,12 @@ static const char *opstr(int op) {
 	switch (op) {
 	case SHL: return "<<";
 	case SHR: return ">>";
+	case LE: return "<=";
+	case GE: return ">=";
+	case EQ: return "==";
+	case NE: return "!=";
+	case LAND: return "&&";
+	case LOR: return "||";
 	default: str[0] = op; str[1] = 0; break;
 	}
 	return str;
@@ -387,6 +393,12 @@ void node_print(FILE *f, struct node const *n) {
 			node_print(f, n->data.as_oper.args[0]);
 			fprintf(f, "%s", opstr(n->data.as_oper.oper));
 			node_print(f, n->data.as_oper.args[1]);
+		} else if (n->data.as_oper.nargs == 3) {
+			node_print(f, n->data.as_oper.args[0]);
+			fprintf(f, "?");
+			node_print(f, n->data.as_oper.args[1]);
+			fprintf(f, ":");
+			node_print(f, n->data.as_oper.args[2]);
 		}
 		fprintf(f, ")");
 		break;
-- 
2.43.0


From 1b908943be5a71d0b53d37948191accd4e72cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 31/45] fix: escape special characters of exported strings

---
 src/node.c    | 22 +++++++++++++++++++++-
 src/node.h    |  1 +
 src/program.c | 10 +++++++---
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/node.c b/src/node.c
index 1b031ea..954c53e 100644
--- a/src/node.c
+++ b/src/node.c
@@ -306,6 +306,22 @@ static const char *opstr(int op) {
 	return str;
 }
 
+/* Print contents of a string such that it can be read back between '/'
+ * delimiters. */
+
+void node_print_string(FILE *f, const char *s) {
+	for (; *s; s++) {
+		switch (*s) {
+		case '\n': fprintf(f, "\\n"); break;
+		case '\r': fprintf(f, "\\r"); break;
+		case '/': case '&': case '\\':
+			fprintf(f, "\\%c", *s);
+			break;
+		default: fputc(*s, f); break;
+		}
+	}
+}
+
 void node_print(FILE *f, struct node const *n) {
 	struct slist *l;
 	if (!n) {
@@ -380,7 +396,11 @@ void node_print(FILE *f, struct node const *n) {
 	case node_type_text:
 		fprintf(f, "/");
 		for (l = n->data.as_list; l; l = l->next) {
-			node_print(f, (struct node *)l->data);
+			struct node *part = l->data;
+			if (node_type_of(part) == node_type_string)
+				node_print_string(f, part->data.as_string);
+			else
+				node_print(f, part);
 		}
 		fprintf(f, "/");
 		break;
diff --git a/src/node.h b/src/node.h
index 74998a9..6647e78 100644
--- a/src/node.h
+++ b/src/node.h
@@ -201,6 +201,7 @@ struct node *node_array_push(struct node *a, struct node *n);
  * Code exporting.
  */
 
+void node_print_string(FILE *f, const char *s);
 void node_print(FILE *f, struct node const *n);
 void node_print_array(FILE *f, struct node const *n);  // print array without []
 
diff --git a/src/program.c b/src/program.c
index 6e064d0..65bbcf6 100644
--- a/src/program.c
+++ b/src/program.c
@@ -246,9 +246,13 @@ static void print_symbol(const char *key, FILE *f) {
 			break;
 		}
 		fprintf(f, "%s\tequ\t", key);
-		if (delim) fputc(delim, f);
-		node_print(f, n);
-		if (delim) fputc(delim, f);
+		if (delim) {
+			fputc(delim, f);
+			node_print_string(f, n->data.as_string);
+			fputc(delim, f);
+		} else {
+			node_print(f, n);
+		}
 		fprintf(f, "\n");
 		n = node_set_attr(n, old_attr);
 		node_free(n);
-- 
2.43.0


From d4bf0fcf1607e534ccf2caeed77471b2a74b16f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 32/45] fix: check the full value of numeric register operands

---
 src/instr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index cdd7103..f319a7e 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -561,7 +561,7 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 				return;
 			}
 		} else if (type[i] == node_type_int) {
-			int v = arga[i]->data.as_int;
+			int64_t v = arga[i]->data.as_int;
 			if (v == 0 && asm6809_options.isa == asm6809_isa_6309) {
 				nibble[i] = 0x0c;
 				size[i] = 16 | 8;
@@ -618,7 +618,7 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 			}
 			nibble[i] = v;
 		} else if (type[i] == node_type_int) {
-			int v = arga[i]->data.as_int;
+			int64_t v = arga[i]->data.as_int;
 			error(error_type_illegal, "numerical values used in TFM op");
 			if (v < 0 || v > 4) {
 				error(error_type_out_of_range, "numeric value for register out of range");
-- 
2.43.0


From 27658fda7955469c10269a281c3000223bce8634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 33/45] fix: encode numeric register operands of bit operations

---
 src/instr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index f319a7e..d42bbbb 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -670,8 +670,11 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 	case node_type_undef:
 		break;
 	case node_type_int:
-		pbyte |= (arga[0]->data.as_int & 3) << 6;
 		error(error_type_illegal, "numerical value used in place of register");
+		if (arga[0]->data.as_int < 0 || arga[0]->data.as_int > 3) {
+			error(error_type_out_of_range, "numeric value for register out of range");
+		}
+		pbyte = (arga[0]->data.as_int & 3) << 6;
 		break;
 	case node_type_reg:
 		switch (arga[0]->data.as_reg) {
-- 
2.43.0


From aa0e00ec2b198b361c1982630d3ce274e9233707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:04 +0000
Subject: [PATCH 34/45] fix: discard data of sections not used in the current
 pass

---
 src/section.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/section.c b/src/section.c
index 31103e6..b2445c7 100644
--- a/src/section.c
+++ b/src/section.c
@@ -143,6 +143,17 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
+	/* Data from an earlier pass must not remain in a section that was not
+	 * used in this one. */
+	if (sect->pass != cur_section->pass) {
+		if (sect->spans) {
+			slist_free_full(sect->spans, (slist_free_func)section_span_free);
+			sect->spans = NULL;
+			sect->span = NULL;
+			error(error_type_inconsistent, NULL);
+		}
+		return;
+	}
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
-- 
2.43.0


From b2f6102aadee95198a663a44f7a8c1e05807bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 35/45] fix: say so when only sections prevent a consistent
 pass

---
 src/section.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/section.c b/src/section.c
index b2445c7..e1cd08a 100644
--- a/src/section.c
+++ b/src/section.c
@@ -138,8 +138,8 @@ void section_set(const char *name, unsigned pass) {
 }
 
 static void verify_section(void *key, void *value, void *data) {
-	(void)key;
 	(void)data;
+	char const *name = key;
 	struct section *sect = value;
 	if (!sect)
 		return;
@@ -150,14 +150,14 @@ static void verify_section(void *key, void *value, void *data) {
 			slist_free_full(sect->spans, (slist_free_func)section_span_free);
 			sect->spans = NULL;
 			sect->span = NULL;
-			error(error_type_inconsistent, NULL);
+			error(error_type_inconsistent, "section '%s' unstable", name);
 		}
 		return;
 	}
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
-		error(error_type_inconsistent, NULL);
+		error(error_type_inconsistent, "end of section '%s' unstable", name);
 	}
 }
 
-- 
2.43.0


From 2e8d4c208307ee3ce662564caeee50826e983cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:45 +0000
Subject: [PATCH 36/45] fix: accept "/" after "*" and strings after "/"

---
 src/lex.l | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 42f7212..05fd341 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -112,11 +112,13 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 			return DELIM;
 		}
 
+\*		{ BEGIN(argnostr); return *yytext; }
+
 }
 
 <argnostr,argnostrnum>{
 
-\/		{ BEGIN(argnostr); return *yytext; }
+[/\*]		{ BEGIN(arg); return *yytext; }
 
 }
 
@@ -166,7 +168,7 @@ ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); r
 "&&"		{ BEGIN(arg); return LAND; }
 "||"		{ BEGIN(arg); return LOR; }
 
-[\!#\%&(\*+\-\:<>\?\[\^\|\~]	{ BEGIN(arg); return *yytext; }
+[\!#\%&(+\-\:<>\?\[\^\|\~]	{ BEGIN(arg); return *yytext; }
 [)\]]		{ BEGIN(argnostr); return *yytext; }
 
 ,		{ BEGIN(arg); return *yytext; }
-- 
2.43.0


From 294fac9727f35af301e596e874e7f293f62e2d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:48 +0000
Subject: [PATCH 37/45] fix: treat "%" after an operand as modulo operator

---
 src/lex.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index 05fd341..5655a76 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -114,6 +114,8 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 
 \*		{ BEGIN(argnostr); return *yytext; }
 
+\%{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 2); return INTEGER; }
+
 }
 
 <argnostr,argnostrnum>{
@@ -146,7 +148,6 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {decimal}[bB]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return BACKREF; }
 {decimal}[fF]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return FWDREF; }
 
-\%{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 2); return INTEGER; }
 0b{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+2, NULL, 2); return INTEGER; }
 @{octdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 8); return INTEGER; }
 0{octdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 8); return INTEGER; }
-- 
2.43.0


From d93ca447f4e3bc5f5c70a632e83cfdc4125517fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 38/45] fix: accept doubled signs in expressions

---
 src/grammar.y | 1 +
 src/lex.l     | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/grammar.y b/src/grammar.y
index c47e34a..a4c7340 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -144,6 +144,7 @@ reg	: REGISTER		{ $$ = node_new_reg($1); }
 expr	: '(' expr ')'		{ $$ = $2; }
 	| '-' expr %prec UMINUS	{ $$ = node_new_oper_1('-', $2); }
 	| '+' expr %prec UMINUS	{ $$ = node_new_oper_1('+', $2); }
+	| DEC2 expr %prec UMINUS	{ $$ = node_new_oper_1('-', node_new_oper_1('-', $2)); }
 	| '~' expr		{ $$ = node_new_oper_1('~', $2); }
 	| '!' expr		{ $$ = node_new_oper_1('!', $2); }
 	| expr '*' expr		{ $$ = node_new_oper_2('*', $1, $3); }
diff --git a/src/lex.l b/src/lex.l
index 5655a76..aa39ed9 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -114,6 +114,8 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 
 \*		{ BEGIN(argnostr); return *yytext; }
 
+\-\-		{ BEGIN(argnostr); return DEC2; }
+
 \%{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 2); return INTEGER; }
 
 }
@@ -122,6 +124,9 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 
 [/\*]		{ BEGIN(arg); return *yytext; }
 
+\+\+		{ BEGIN(argnostr); return INC2; }
+\+\+/[^ \t\r\n;,\]]	{ BEGIN(arg); yyless(1); return *yytext; }
+
 }
 
 <arg,argnostr>{
@@ -142,9 +147,6 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 \\{digit}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
 \\\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
 
-\+\+		{ BEGIN(argnostr); return INC2; }
-\-\-		{ BEGIN(argnostr); return DEC2; }
-
 {decimal}[bB]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return BACKREF; }
 {decimal}[fF]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return FWDREF; }
 
-- 
2.43.0


From 5b755ca4c216d70f2638147e63a5a66f572d2768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:53 +0000
Subject: [PATCH 39/45] fix: allow positional variables in the instruction
 field

---
 src/assemble.c |  6 +++++-
 src/eval.c     | 15 +++++++++++++++
 src/eval.h     |  2 ++
 src/grammar.y  |  2 +-
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index bcfd23d..19de670 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -320,7 +320,11 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		}
 
 		n_line.label = NULL;
-		n_line.opcode = eval_string(l->opcode);
+		/* Positional variables have no value yet while defining a macro */
+		if (defining_macro_level > 0)
+			n_line.opcode = eval_string_literal(l->opcode);
+		else
+			n_line.opcode = eval_string(l->opcode);
 		n_line.args = NULL;
 		n_line.text = l->text;
 
diff --git a/src/eval.c b/src/eval.c
index 2618a6e..213741c 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -186,6 +186,21 @@ struct node *eval_string(struct node *n) {
 	return node_set_attr(out, attr);
 }
 
+struct node *eval_string_literal(struct node *n) {
+	switch (node_type_of(n)) {
+	case node_type_id:
+	case node_type_text:
+		for (struct slist *l = n->data.as_list; l; l = l->next) {
+			if (node_type_of(l->data) != node_type_string)
+				return NULL;
+		}
+		break;
+	default:
+		break;
+	}
+	return eval_string(n);
+}
+
 struct node *eval_float(struct node *n) {
 	switch (node_type_of(n)) {
 	case node_type_float:
diff --git a/src/eval.h b/src/eval.h
index ad85ed5..ef40f25 100644
--- a/src/eval.h
+++ b/src/eval.h
@@ -23,6 +23,8 @@ struct node *eval_node(struct node *n);
  */
 
 struct node *eval_string(struct node *n);
+/* Same, but NULL (and no error) if it depends on positional variables */
+struct node *eval_string_literal(struct node *n);
 struct node *eval_float(struct node *n);
 struct node *eval_int(struct node *n);
 
diff --git a/src/grammar.y b/src/grammar.y
index a4c7340..62bd5a0 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -219,7 +219,7 @@ struct prog *grammar_parse_file(const char *filename) {
 }
 
 static void check_end_opcode(struct prog_line *line) {
-	struct node *n = eval_string(line->opcode);
+	struct node *n = eval_string_literal(line->opcode);
 	if (n) {
 		if (0 == c_strcasecmp("end", n->data.as_string)) {
 			fclose(yyin);
-- 
2.43.0


From ecf761542d98107c889a0cd4899c43665489f4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:44 +0000
Subject: [PATCH 40/45] fix: local labels new or gone in a pass are
 inconsistent

---
 src/section.c |  1 +
 src/symbol.c  | 32 +++++++++++++++++++++++++++-----
 src/symbol.h  |  7 +++++++
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/section.c b/src/section.c
index e1cd08a..a3a7e97 100644
--- a/src/section.c
+++ b/src/section.c
@@ -143,6 +143,7 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
+	symbol_local_finish_pass(sect->local_labels, cur_section->pass);
 	/* Data from an earlier pass must not remain in a section that was not
 	 * used in this one. */
 	if (sect->pass != cur_section->pass) {
diff --git a/src/symbol.c b/src/symbol.c
index 6c9862c..2a28385 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -49,6 +49,7 @@ struct symbol {
 
 struct symbol_local {
 	unsigned line_number;
+	unsigned pass;
 	struct node *node;
 };
 
@@ -221,7 +222,6 @@ struct node *symbol_local_fwdref(struct dict *table, intptr_t key, unsigned line
 
 void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 		      struct node *value, unsigned pass) {
-	(void)pass;
 	gl_list_t sym_list = dict_lookup(table, (void *)key);
 	gl_list_node_t old_lnode = NULL;
 	struct symbol_local const *old_sym = NULL;
@@ -237,14 +237,36 @@ void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 	struct node *newn = eval_node(value);
 	struct symbol_local *new_sym = xmalloc(sizeof(*new_sym));
 	new_sym->line_number = line_number;
+	new_sym->pass = pass;
 	new_sym->node = newn;
-	if (old_sym) {
-		if (!node_equal(old_sym->node, newn))
-			error(error_type_inconsistent,
-			      "value of local label '%ld' unstable", key);
+	if (old_sym ? !node_equal(old_sym->node, newn) : (pass > 0)) {
+		error(error_type_inconsistent,
+		      "value of local label '%ld' unstable", key);
 	}
 	if (old_lnode) {
 		gl_list_remove_node(sym_list, old_lnode);
 	}
 	gl_sortedlist_add(sym_list, sym_local_compar, new_sym);
 }
+
+/* Discard the occurrences of one local label not seen in this pass. */
+
+static void symbol_local_finish_list(void *key, void *value, void *data) {
+	gl_list_t sym_list = value;
+	unsigned pass = *(unsigned *)data;
+	size_t i = 0;
+	while (i < gl_list_size(sym_list)) {
+		struct symbol_local const *sym = gl_list_get_at(sym_list, i);
+		if (sym->pass == pass) {
+			i++;
+			continue;
+		}
+		gl_list_remove_at(sym_list, i);
+		error(error_type_inconsistent,
+		      "value of local label '%ld' unstable", (intptr_t)key);
+	}
+}
+
+void symbol_local_finish_pass(struct dict *table, unsigned pass) {
+	dict_foreach(table, symbol_local_finish_list, &pass);
+}
diff --git a/src/symbol.h b/src/symbol.h
index 03705f6..e9fd60e 100644
--- a/src/symbol.h
+++ b/src/symbol.h
@@ -59,4 +59,11 @@ struct node *symbol_local_fwdref(struct dict *table, intptr_t key, unsigned line
 void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 		      struct node *value, unsigned pass);
 
+/*
+ * Called at the end of each pass.  Any occurrence from an earlier pass that
+ * was not seen again is discarded, and an inconsistency raised.
+ */
+
+void symbol_local_finish_pass(struct dict *table, unsigned pass);
+
 #endif
-- 
2.43.0


From f877b7eef7825882e25c765503cc70cf243eae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:44 +0000
Subject: [PATCH 41/45] fix: symbols first defined in a later pass are
 inconsistent

---
 src/symbol.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbol.c b/src/symbol.c
index 2a28385..0959e9e 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -82,7 +82,9 @@ _Bool symbol_force_set(const char *key, struct node *value, _Bool changeable, un
 	struct symbol *news = xmalloc(sizeof(*news));
 	news->pass = pass;
 	news->node = eval_node(value);
-	_Bool is_inconsistent = (olds && !node_equal(olds->node, news->node));
+	/* Anything evaluated earlier in this pass could not know of a symbol
+	 * that was not defined in a previous one. */
+	_Bool is_inconsistent = olds ? !node_equal(olds->node, news->node) : (pass > 0);
 	char *key_copy = xstrdup(key);
 	dict_insert(symbols, key_copy, news);
 	return is_inconsistent;
-- 
2.43.0


From 2017f1a093da53612e49071a7f93d8da0698fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:53 +0000
Subject: [PATCH 42/45] fix: embed the low byte of floating point values of any
 size

FCB and its variants went through a 32 bit integer, so that values beyond
its range were stored as zero, other than by FDB and FQB.
---
 src/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 19de670..6d60c12 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -782,7 +782,7 @@ static void emit_formatted(char const *ins, int argn, struct node *n,
 		section_emit_uint8(n->data.as_int | or_last);
 		break;
 	case node_type_float:
-		section_emit_uint8((int32_t)n->data.as_float | or_last);
+		section_emit_uint8((int64_t)n->data.as_float | or_last);
 		break;
 	case node_type_string:
 		for (char const *c = n->data.as_string; *c; c++) {
-- 
2.43.0


From d187ec43c7ad87fdbf8bef3b1e09c1ad3efd578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 43/45] fix: export numbers such that the same value is read
 back

---
 src/node.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/node.c b/src/node.c
index 954c53e..a3c447b 100644
--- a/src/node.c
+++ b/src/node.c
@@ -322,6 +322,18 @@ void node_print_string(FILE *f, const char *s) {
 	}
 }
 
+/* Numbers are read without an exponent.  Print as many decimals as it takes
+ * to read back the same value; 1074 represent any double exactly. */
+
+static void print_float(FILE *f, double v) {
+	char buf[1536];
+	int prec = 6;
+	do {
+		snprintf(buf, sizeof(buf), "%.*f", prec, v);
+	} while (strtod(buf, NULL) != v && prec++ < 1074);
+	fprintf(f, "%s", buf);
+}
+
 void node_print(FILE *f, struct node const *n) {
 	struct slist *l;
 	if (!n) {
@@ -361,10 +373,14 @@ void node_print(FILE *f, struct node const *n) {
 	case node_type_empty:
 		break;
 	case node_type_int:
-		fprintf(f, "%"PRId64, n->data.as_int);
+		/* The magnitude of the lowest integer can't be read back */
+		if (n->data.as_int == INT64_MIN)
+			fprintf(f, "(-%"PRId64"-1)", INT64_MAX);
+		else
+			fprintf(f, "%"PRId64, n->data.as_int);
 		break;
 	case node_type_float:
-		fprintf(f, "%f", n->data.as_float);
+		print_float(f, n->data.as_float);
 		break;
 	case node_type_reg:
 		fprintf(f, "%s", reg_id_to_name(n->data.as_reg));
-- 
2.43.0


From ec40effda07ebadde71f6b3db383495f22e11c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 44/45] fix: export positional variables such that "&" before
 one is still an operator

---
 src/node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index a3c447b..dae7f18 100644
--- a/src/node.c
+++ b/src/node.c
@@ -400,7 +400,7 @@ void node_print(FILE *f, struct node const *n) {
 		fprintf(f, "%"PRId64"F", n->data.as_int);
 		break;
 	case node_type_interp:
-		fprintf(f, "&{%s}", n->data.as_string);
+		fprintf(f, "\\{%s}", n->data.as_string);
 		break;
 
 	/* Operator types */
-- 
2.43.0


From 2e158aebbc34dcbc68eb24a798b42403117444f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 45/45] fix: diagnose expressions nested too deeply to evaluate

---
 src/node.c | 25 ++++++++++++++++++++++---
 src/node.h |  1 +
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/node.c b/src/node.c
index dae7f18..8950138 100644
--- a/src/node.c
+++ b/src/node.c
@@ -27,7 +27,11 @@ option) any later version.
 
 #include "grammar.h"
 
+/* Limits recursion over nested operators. */
+#define MAX_OPER_DEPTH (4096)
+
 static struct node *node_new_oper_n(int oper, int nargs);
+static struct node *node_check_depth(struct node *n);
 
 struct node *node_new(int type) {
 	struct node *n = xmalloc(sizeof(*n));
@@ -239,22 +243,37 @@ static struct node *node_new_oper_n(int oper, int nargs) {
 	struct node *n = node_new(node_type_oper);
 	struct node **arga = xmalloc(nargs * sizeof(*arga));
 	n->data.as_oper.oper = oper;
+	n->data.as_oper.depth = 0;
 	n->data.as_oper.nargs = nargs;
 	n->data.as_oper.args = arga;
 	return n;
 }
 
+static struct node *node_check_depth(struct node *n) {
+	for (int i = 0; i < n->data.as_oper.nargs; i++) {
+		struct node *arg = n->data.as_oper.args[i];
+		if (node_type_of(arg) == node_type_oper && arg->data.as_oper.depth >= n->data.as_oper.depth)
+			n->data.as_oper.depth = arg->data.as_oper.depth + 1;
+	}
+	if (n->data.as_oper.depth >= MAX_OPER_DEPTH) {
+		error(error_type_syntax, "expression too complex");
+		node_free(n);
+		return node_new_empty();
+	}
+	return n;
+}
+
 struct node *node_new_oper_1(int oper, struct node *a1) {
 	struct node *n = node_new_oper_n(oper, 1);
 	n->data.as_oper.args[0] = a1;
-	return n;
+	return node_check_depth(n);
 }
 
 struct node *node_new_oper_2(int oper, struct node *a1, struct node *a2) {
 	struct node *n = node_new_oper_n(oper, 2);
 	n->data.as_oper.args[0] = a1;
 	n->data.as_oper.args[1] = a2;
-	return n;
+	return node_check_depth(n);
 }
 
 struct node *node_new_oper_3(int oper, struct node *a1, struct node *a2, struct node *a3) {
@@ -262,7 +281,7 @@ struct node *node_new_oper_3(int oper, struct node *a1, struct node *a2, struct
 	n->data.as_oper.args[0] = a1;
 	n->data.as_oper.args[1] = a2;
 	n->data.as_oper.args[2] = a3;
-	return n;
+	return node_check_depth(n);
 }
 
 /* Array type */
diff --git a/src/node.h b/src/node.h
index 6647e78..251a6c5 100644
--- a/src/node.h
+++ b/src/node.h
@@ -87,6 +87,7 @@ struct node;
 
 struct node_oper {
 	int oper;
+	int depth;  // of operators nested within
 	int nargs;
 	struct node **args;
 };
-- 
2.43.0

