From eb5b8cda034eed1a1c40127f96159327ebe81cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 01/34] fix: free every entry of a sequence of fixed-length
 sequences

The entries of a non-pointer CYAML_SEQUENCE_FIXED entry are laid out
inline, so the stride is the entry's data_size times its length.
---
 src/free.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/free.c b/src/free.c
index 266cd7b..431a39e 100644
--- a/src/free.c
+++ b/src/free.c
@@ -67,6 +67,8 @@ static void cyaml__free_sequence(
 
 	if (schema->flags & CYAML_FLAG_POINTER) {
 		data_size = sizeof(data);
+	} else if (schema->type == CYAML_SEQUENCE_FIXED) {
+		data_size *= schema->sequence.max;
 	}
 
 	for (unsigned i = 0; i < count; i++) {
-- 
2.43.0


From 06f8bab52465d26d9f8b680ffbd653e32a084e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 02/34] fix: do not clone entries of a NULL fixed-length
 sequence

The sequence state stayed on the stack when its data pointer turned out
to be NULL, so for an optional NULL field the entries were cloned from
the memory that follows the pointer itself.
---
 src/copy.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/copy.c b/src/copy.c
index 64176aa..3fa729d 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -458,6 +458,10 @@ static cyaml_err_t cyaml__clone_value(
 		ctx->state->sequence.count = seq_count;
 		err = cyaml__data_handle_pointer(ctx, schema, &data, &copy);
 		if (err != CYAML_OK) {
+			if (err == CYAML_ERR_BAD_PARAM_NULL_DATA) {
+				/* There is no sequence data to clone. */
+				cyaml__stack_pop(ctx);
+			}
 			return err;
 		}
 		err = cyaml__write_sequence_count(ctx, schema, seq_count);
-- 
2.43.0


From 4e8bd53562da3a5bb995f106fe6cf4a6528f1c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 03/34] fix: size the copy of a sequence by the size of its
 entries

Entries that are pointers or fixed-length sequences do not occupy their
schema's data_size, so the copy's allocation was too small.
---
 src/copy.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 3fa729d..c0188f9 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -651,9 +651,20 @@ static size_t cyaml__get_data_len(
 		const cyaml_schema_value_t *schema,
 		unsigned seq_count)
 {
-	size_t len = cyaml__is_sequence(schema) ?
-			schema->sequence.entry->data_size :
-			schema->data_size;
+	size_t len = schema->data_size;
+
+	if (cyaml__is_sequence(schema)) {
+		const cyaml_schema_value_t *entry = schema->sequence.entry;
+
+		if (entry->flags & CYAML_FLAG_POINTER) {
+			len = sizeof(NULL);
+		} else {
+			len = entry->data_size;
+			if (entry->type == CYAML_SEQUENCE_FIXED) {
+				len *= entry->sequence.max;
+			}
+		}
+	}
 
 	if (schema->type == CYAML_SEQUENCE) {
 		len *= seq_count;
-- 
2.43.0


From f19f929a4a44cd5fa6b9dc728094cb57b914f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 04/34] fix: copy loaded documents with NULL values and empty
 sequences

Loading produces NULL for a null value whose schema allows it, and a
NULL pointer with a zero count for an empty sequence.  Copying either
failed, although they are complete documents.
---
 src/copy.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/copy.c b/src/copy.c
index c0188f9..6ef6e6d 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -83,6 +83,17 @@ static inline bool cyaml__is_sequence(const cyaml_schema_value_t *schema)
 	        (schema->type == CYAML_SEQUENCE_FIXED));
 }
 
+/**
+ * Helper to check whether a value may be NULL.
+ *
+ * \param[in]  schema  The schema entry for a value.
+ * \return true iff NULL is allowed for the value, false otherwise.
+ */
+static inline bool cyaml__is_nullable(const cyaml_schema_value_t *schema)
+{
+	return cyaml__flag_check_all(schema->flags, CYAML_FLAG_POINTER_NULL);
+}
+
 /**
  * Ensure that the CYAML copy context has space for a new stack entry.
  *
@@ -529,6 +540,12 @@ static cyaml_err_t cyaml__clone_mapping(
 					"Copy: Sequence entry count: %"PRIu64"\n",
 					seq_count);
 
+			if ((field->value.flags & CYAML_FLAG_POINTER) &&
+			    seq_count == 0) {
+				/* Empty sequences have no entry data. */
+				return CYAML_OK;
+			}
+
 		} else if (field->value.type == CYAML_SEQUENCE_FIXED) {
 			seq_count = field->value.sequence.min;
 		}
@@ -539,7 +556,8 @@ static cyaml_err_t cyaml__clone_mapping(
 				seq_count,
 				state->copy + field->data_offset);
 		if (err == CYAML_ERR_BAD_PARAM_NULL_DATA) {
-			if (!(field->value.flags & CYAML_FLAG_OPTIONAL)) {
+			if (!(field->value.flags & CYAML_FLAG_OPTIONAL) &&
+			    !cyaml__is_nullable(&field->value)) {
 				return CYAML_ERR_MAPPING_FIELD_MISSING;
 			}
 			err = CYAML_OK;
@@ -596,6 +614,10 @@ static cyaml_err_t cyaml__clone_sequence(
 				ctx->state->data + offset,
 				seq_count,
 				ctx->state->copy + offset);
+		if (err == CYAML_ERR_BAD_PARAM_NULL_DATA &&
+		    cyaml__is_nullable(value)) {
+			err = CYAML_OK;
+		}
 	} else {
 		err = cyaml__stack_pop(ctx);
 	}
-- 
2.43.0


From 4084e1cdb59d53bb5c37790d68ec646b3411b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 05/34] fix: report failure to write a file's buffered output

The stream's buffer may only reach the file when it is closed.  Ignoring
the result of fclose reported success for truncated files.
---
 src/save.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 6fbcfe3..64e58dd 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1382,7 +1382,13 @@ cyaml_err_t cyaml_save_file(
 
 	/* Cleanup */
 	yaml_emitter_delete(&emitter);
-	fclose(file);
+
+	/* Buffered output may only be written, and fail, when closing. */
+	if (fclose(file) != 0) {
+		cyaml__log(config, CYAML_LOG_ERROR,
+				"Save: Failed to write file: %s\n", path);
+		return CYAML_ERR_LIBYAML_EMITTER;
+	}
 
 	return CYAML_OK;
 }
-- 
2.43.0


From a2ee347d4dbfa9ed2ecf158054c7e0d151c37d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:19 +0000
Subject: [PATCH 06/34] fix: do not share number conversion buffers between
 saves

The static buffers made concurrent saves, and saves started by a
callback of another save, write each other's numbers.
---
 src/save.c | 59 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/src/save.c b/src/save.c
index 64e58dd..adce46f 100644
--- a/src/save.c
+++ b/src/save.c
@@ -504,17 +504,19 @@ static cyaml_err_t cyaml__emit_scalar(
 	return cyaml__emit_event_helper(ctx, ret, &event);
 }
 
+/** Size of buffer large enough for any number's string conversion. */
+#define CYAML_NUM_STR_MAX 64
+
 /**
  * Convert signed integer to string.
  *
- * \param[in]  value  The integer to convert.
+ * \param[in]  value   The integer to convert.
+ * \param[out] string  Buffer of \ref CYAML_NUM_STR_MAX bytes to use.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_int(
-		int64_t value)
+		int64_t value, char *string)
 {
-	static char string[32];
-
 	sprintf(string, "%"PRIi64, value);
 
 	return string;
@@ -523,15 +525,14 @@ static const char * cyaml__get_int(
 /**
  * Convert unsigned integer to string.
  *
- * \param[in]  value  The integer to convert.
- * \param[in]  hex    Whether to render the number as hexadecimal.
+ * \param[in]  value   The integer to convert.
+ * \param[in]  hex     Whether to render the number as hexadecimal.
+ * \param[out] string  Buffer of \ref CYAML_NUM_STR_MAX bytes to use.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_uint(
-		uint64_t value, bool hex)
+		uint64_t value, bool hex, char *string)
 {
-	static char string[32];
-
 	if (hex) {
 		sprintf(string, "0x%"PRIx64, value);
 	} else {
@@ -544,14 +545,13 @@ static const char * cyaml__get_uint(
 /**
  * Get string representation for single precision floating point values.
  *
- * \param[in]  value  The value to convert.
+ * \param[in]  value   The value to convert.
+ * \param[out] string  Buffer of \ref CYAML_NUM_STR_MAX bytes to use.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_float(
-		double value)
+		double value, char *string)
 {
-	static char string[64];
-
 	sprintf(string, "%g", value);
 
 	return string;
@@ -560,14 +560,13 @@ static const char * cyaml__get_float(
 /**
  * Get string representation for double precision floating point values.
  *
- * \param[in]  value  The value to convert.
+ * \param[in]  value   The value to convert.
+ * \param[out] string  Buffer of \ref CYAML_NUM_STR_MAX bytes to use.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_double(
-		double value)
+		double value, char *string)
 {
-	static char string[64];
-
 	sprintf(string, "%.16e", value);
 
 	return string;
@@ -609,6 +608,7 @@ static cyaml_err_t cyaml__write_int(
 		const uint8_t *data)
 {
 	cyaml_err_t err;
+	char string[CYAML_NUM_STR_MAX];
 	int64_t number;
 	uint64_t raw;
 
@@ -620,7 +620,7 @@ static cyaml_err_t cyaml__write_int(
 	number = cyaml_sign_pad(raw, schema->data_size);
 
 	return cyaml__emit_scalar(ctx, schema,
-			cyaml__get_int(number),
+			cyaml__get_int(number, string),
 			YAML_INT_TAG);
 }
 
@@ -637,13 +637,15 @@ static cyaml_err_t cyaml__write_uint(
 		const cyaml_schema_value_t *schema,
 		const uint8_t *data)
 {
+	char string[CYAML_NUM_STR_MAX];
 	uint64_t number;
 	cyaml_err_t err;
 
 	number = cyaml_data_read(schema->data_size, data, &err);
 	if (err == CYAML_OK) {
-		const char *string = cyaml__get_uint(number, false);
-		err = cyaml__emit_scalar(ctx, schema, string, YAML_INT_TAG);
+		err = cyaml__emit_scalar(ctx, schema,
+				cyaml__get_uint(number, false, string),
+				YAML_INT_TAG);
 	}
 
 	return err;
@@ -732,17 +734,18 @@ static cyaml_err_t cyaml__write_float(
 		const cyaml_schema_value_t *schema,
 		const uint8_t *data)
 {
+	char buffer[CYAML_NUM_STR_MAX];
 	const char *string = NULL;
 
 	if (schema->data_size == sizeof(float)) {
 		float number;
 		memcpy(&number, data, schema->data_size);
-		string = cyaml__get_float(number);
+		string = cyaml__get_float(number, buffer);
 
 	} else if (schema->data_size == sizeof(double)) {
 		double number;
 		memcpy(&number, data, schema->data_size);
-		string = cyaml__get_double(number);
+		string = cyaml__get_double(number, buffer);
 	} else {
 		return CYAML_ERR_INVALID_DATA_SIZE;
 	}
@@ -840,8 +843,9 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 		if (schema->flags & CYAML_FLAG_STRICT) {
 			return CYAML_ERR_INVALID_VALUE;
 		} else {
-			const char *string = cyaml__get_uint(number, false);
-			err = cyaml__emit_scalar(ctx, schema, string,
+			char string[CYAML_NUM_STR_MAX];
+			err = cyaml__emit_scalar(ctx, schema,
+					cyaml__get_uint(number, false, string),
 					YAML_STR_TAG);
 			if (err != CYAML_OK) {
 				return err;
@@ -906,7 +910,7 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 	}
 
 	for (uint32_t i = 0; i < schema->bitfield.count; i++) {
-		const char *value_str;
+		char value_str[CYAML_NUM_STR_MAX];
 		uint64_t value;
 		uint64_t mask;
 
@@ -932,8 +936,9 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 		}
 
 		/* Emit bitfield value's value */
-		value_str = cyaml__get_uint(value, true);
-		err = cyaml__emit_scalar(ctx, schema, value_str, YAML_INT_TAG);
+		err = cyaml__emit_scalar(ctx, schema,
+				cyaml__get_uint(value, true, value_str),
+				YAML_INT_TAG);
 		if (err != CYAML_OK) {
 			return err;
 		}
-- 
2.43.0


From 441969fa883e0591eabf7a55a5cb0946ce899c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 07/34] fix: save floats with enough digits to read back
 unchanged

---
 src/save.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/save.c b/src/save.c
index adce46f..b68218d 100644
--- a/src/save.c
+++ b/src/save.c
@@ -15,6 +15,7 @@
 #include <inttypes.h>
 #include <stdbool.h>
 #include <assert.h>
+#include <float.h>
 #include <limits.h>
 
 #include <yaml.h>
@@ -550,9 +551,14 @@ static const char * cyaml__get_uint(
  * \return String conversion of the value.
  */
 static const char * cyaml__get_float(
-		double value, char *string)
+		float value, char *string)
 {
-	sprintf(string, "%g", value);
+	int precision = 6;
+
+	/* Use the fewest digits that read back as the same value. */
+	do {
+		sprintf(string, "%.*g", precision, (double)value);
+	} while (strtof(string, NULL) != value && precision++ < FLT_DECIMAL_DIG);
 
 	return string;
 }
-- 
2.43.0


From 9afc0ead047bf4caa506b776161bacb51dd55499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 08/34] fix: save negative enum values by name

Values smaller than 64-bit were not sign extended before being compared
with the schema's, so negative values in strict schemas failed to save.
---
 src/save.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/save.c b/src/save.c
index b68218d..dd6dbde 100644
--- a/src/save.c
+++ b/src/save.c
@@ -695,15 +695,17 @@ static cyaml_err_t cyaml__write_enum(
 		const cyaml_schema_value_t *schema,
 		const uint8_t *data)
 {
-	int64_t number;
+	uint64_t raw;
 	cyaml_err_t err;
 
-	number = (int64_t)cyaml_data_read(schema->data_size, data, &err);
+	raw = cyaml_data_read(schema->data_size, data, &err);
 	if (err == CYAML_OK) {
 		const cyaml_strval_t *strings = schema->enumeration.strings;
+		int64_t number = cyaml_sign_pad(raw, schema->data_size);
 		const char *string = NULL;
 		for (uint32_t i = 0; i < schema->enumeration.count; i++) {
-			if (number == strings[i].val) {
+			if (number == strings[i].val ||
+			    raw == (uint64_t)strings[i].val) {
 				string = strings[i].str;
 				break;
 			}
-- 
2.43.0


From 137a2ed74a94d487dd44912462b9c2c205f2d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 09/34] fix: save empty sequences that have no entry data

Loading an empty sequence gives a NULL pointer and a zero count, which
could not be saved again.
---
 src/save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index dd6dbde..d1dbdbc 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1016,7 +1016,7 @@ static cyaml_err_t cyaml__write_value(
 				CYAML_FLAG_POINTER_NULL)) {
 			return cyaml__emit_scalar(ctx, schema, "",
 					YAML_STR_TAG);
-		} else {
+		} else if (schema->type != CYAML_SEQUENCE || seq_count != 0) {
 			return CYAML_ERR_INVALID_VALUE;
 		}
 	}
-- 
2.43.0


From df80e201cc56f5466b25b341ff26113ac612c7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 10/34] fix: load numerical flags that use the top bit of
 64-bit flags

Saving a non-strict flags value writes any bits that have no name as
unsigned numbers, but loading read them as signed, so a value with bit
63 set could be saved but not loaded.
---
 src/load.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/load.c b/src/load.c
index b0c8483..30b762a 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2141,15 +2141,16 @@ static cyaml_err_t cyaml__set_flag(
 	}
 
 	if (!(schema->flags & CYAML_FLAG_STRICT)) {
-		long long temp;
+		unsigned long long temp;
 		char *end = NULL;
 		uint64_t max = (~(uint64_t)0) >> ((8 - schema->data_size) * 8);
 
 		errno = 0;
-		temp = strtoll(value, &end, 0);
+		temp = strtoull(value, &end, 0);
 
 		if (!(end == value || end == NULL || *end != '\0' ||
-		      errno == ERANGE || temp < 0 || (uint64_t)temp > max)) {
+		      errno == ERANGE || strchr(value, '-') != NULL ||
+		      (uint64_t)temp > max)) {
 			*flags_out |= ((uint64_t)temp);
 			return CYAML_OK;
 		}
-- 
2.43.0


From 9b46d15f1f91301d1fb29210e9f1e5c4d5fc1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 11/34] fix: reject negative numbers for unsigned values

strtoull() accepts a leading minus sign and negates the result, so for
64-bit unsigned integers, e.g. "-1" loaded as 18446744073709551615, and
for smaller ones and bitfields a large enough negative number wrapped
to a value in range.
---
 src/load.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 30b762a..ad29db8 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1892,7 +1892,8 @@ static inline cyaml_err_t cyaml__read_uint64_t(
 	errno = 0;
 	temp = strtoull(value, &end, 0);
 
-	if (end == value || end == NULL || *end != '\0' || errno == ERANGE) {
+	if (end == value || end == NULL || *end != '\0' || errno == ERANGE ||
+	    (temp != 0 && strchr(value, '-') != NULL)) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Invalid uint64_t value: '%s'\n",
 				value);
-- 
2.43.0


From b156cca62564abaf599d937f295b814d16c87d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 12/34] fix: reject sequences with more entries than their
 count can hold

The entry count was truncated to the size of the client's count member,
so the loaded data had the wrong number of entries, and the entries
beyond that were leaked.
---
 src/load.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/load.c b/src/load.c
index ad29db8..90b7f84 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2820,6 +2820,18 @@ static cyaml_err_t cyaml__seq_entry(
 		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
 	}
 
+	if (schema->type != CYAML_SEQUENCE_FIXED &&
+	    state->sequence.count_size != 0 &&
+	    state->sequence.count_size < sizeof(state->sequence.count) &&
+	    (state->sequence.count + 1) >>
+			(state->sequence.count_size * 8) != 0) {
+		cyaml__log(ctx->config, CYAML_LOG_ERROR,
+				"Load: Excessive entries in sequence "
+				"for %u byte entry count.\n",
+				(unsigned)state->sequence.count_size);
+		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
+	}
+
 	err = cyaml__data_handle_pointer(ctx, schema, event, &value_data);
 	if (err != CYAML_OK) {
 		return err;
-- 
2.43.0


From 6a91ffdab71487d95f4b7e4ec15cca2770ee60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:52 +0000
Subject: [PATCH 13/34] fix: pass sequence entries to validation callback

For sequences with the pointer flag, the validation callback was given
the address of the client's pointer, rather than the sequence entries
that it points to.
---
 src/load.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 90b7f84..1f886ce 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2883,6 +2883,8 @@ static cyaml_err_t cyaml__seq_end(
 {
 	const cyaml_state_t *state = ctx->state;
 	const cyaml_schema_value_t *schema = state->schema;
+	const uint8_t *data = (schema->flags & CYAML_FLAG_POINTER) ?
+			state->sequence.data : state->data;
 
 	CYAML_UNUSED(event);
 
@@ -2898,7 +2900,7 @@ static cyaml_err_t cyaml__seq_end(
 	if (schema->sequence.validation_cb != NULL) {
 		if (!schema->sequence.validation_cb(
 				ctx->config->validation_ctx,
-				schema, state->data, state->sequence.count)) {
+				schema, data, state->sequence.count)) {
 			return CYAML_ERR_INVALID_VALUE;
 		}
 	}
-- 
2.43.0


From e7084d5228e0e8a39881e0d36b48293f34d3b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 14/34] fix: resolve alias to the most recently defined anchor

If a node with an anchor contained a node redefining the same anchor,
later aliases used the outer node, because that is completed last.
---
 src/load.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/load.c b/src/load.c
index 1f886ce..057b57c 100644
--- a/src/load.c
+++ b/src/load.c
@@ -594,9 +594,14 @@ static cyaml_err_t cyaml__handle_alias(
 		if (record->complete[i - 1].len != len) {
 			continue;
 		}
-		if (memcmp(record->complete[i - 1].name, alias, len) == 0) {
+		if (memcmp(record->complete[i - 1].name, alias, len) != 0) {
+			continue;
+		}
+		/* Anchors are in order of completion, but an alias refers to
+		 * the most recently defined anchor of that name. */
+		if (anchor_idx == 0 || record->complete[i - 1].start >
+				record->complete[anchor_idx - 1].start) {
 			anchor_idx = i;
-			break;
 		}
 	}
 
-- 
2.43.0


From 94a9b14ae3736c3ec8a7440ee02e8e6093146386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 15/34] fix: do not read past the end of a string ending in
 partial UTF-8

When a continuation byte is missing, the length is shortened to not
consume the byte that isn't a continuation byte, but the length set was
the number of bytes remaining, rather than the number consumed.
---
 src/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utf8.c b/src/utf8.c
index 6e32218..58e4f27 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -63,7 +63,7 @@ unsigned cyaml_utf8_get_codepoint(
 			if ((s[i] & 0xc0) != 0x80) {
 				/* Need to shorten length so we don't consume
 				 * this byte with this invalid character. */
-				*len -= i;
+				*len = i;
 				goto invalid;
 			}
 
-- 
2.43.0


From 179223b87cc0111902ea90dba9f07664187491e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 16/34] fix: do not log NULL libyaml parser problem string

There is no problem string when libyaml runs out of memory.
---
 src/load.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 057b57c..e5938cd 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1058,7 +1058,8 @@ static cyaml_err_t cyaml_get_next_event(
 		if (!yaml_parser_parse(ctx->parser, event)) {
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"Load: libyaml: %s\n",
-					ctx->parser->problem);
+					ctx->parser->problem != NULL ?
+					ctx->parser->problem : "Unknown error");
 			return CYAML_ERR_LIBYAML_PARSER;
 		}
 		e_ctx->have_event = true;
-- 
2.43.0


From c8c2179b75241c537b81a5c5c8b323a17850fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 17/34] fix: remove stray flag from format of integer range
 message

---
 src/load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index e5938cd..96c154e 100644
--- a/src/load.c
+++ b/src/load.c
@@ -184,7 +184,7 @@ static inline cyaml_err_t cyaml__validate_int(
 	if ((min != 0 || max != 0) && (value < min || value > max)) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: INT value '%" PRIi64 "' out of range "
-				"(min: %" PRIi64 " max: % " PRIi64 ")\n",
+				"(min: %" PRIi64 " max: %" PRIi64 ")\n",
 				value, min, max);
 		return CYAML_ERR_INVALID_VALUE;
 	}
-- 
2.43.0


From bd71cc1bc7215165bdf5dd0e90985717f15461ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 18/34] fix: report the failing field in save error backtrace

The backtrace named the field after the one being saved, passing NULL
for the "%s" for the final field.  It also used the wrong format for the
sequence entry, and passed NULL for the libyaml problem string when
libyaml runs out of memory.
---
 src/save.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/save.c b/src/save.c
index d1dbdbc..2dd5cbc 100644
--- a/src/save.c
+++ b/src/save.c
@@ -133,7 +133,8 @@ static cyaml_err_t cyaml__emit_event_helper(
 	if (valid == 0) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Save: LibYAML: Failed to emit event: %s\n",
-				ctx->emitter->problem);
+				ctx->emitter->problem != NULL ?
+				ctx->emitter->problem : "Unknown error");
 		return CYAML_ERR_LIBYAML_EMITTER;
 	}
 
@@ -453,14 +454,20 @@ static void cyaml__backtrace(
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
 			assert(state->mapping.field != NULL);
+			if (state->mapping.field == state->schema->mapping.fields) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping\n");
+				break;
+			}
+			/* The state has already moved on to the next field. */
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in mapping field: %s\n",
-					state->mapping.field->key);
+					(state->mapping.field - 1)->key);
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
-					"  in sequence entry: %"PRIu32"\n",
-					state->sequence.count);
+					"  in sequence entry: %"PRIu64"\n",
+					state->sequence.entry);
 			break;
 		default:
 			/** \todo \ref CYAML_STATE_IN_DOC handling for multi
@@ -1343,7 +1350,8 @@ static cyaml_err_t cyaml__save(
 	if (!yaml_emitter_flush(emitter)) {
 		cyaml__log(config, CYAML_LOG_ERROR,
 				"Save: LibYAML: Failed to flush emitter: %s\n",
-				emitter->problem);
+				emitter->problem != NULL ?
+				emitter->problem : "Unknown error");
 		err = CYAML_ERR_LIBYAML_EMITTER;
 	}
 
-- 
2.43.0


From 4fea0aad6b245a40cdc94cc5678dd2865916e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 19/34] fix: report the failing field in copy error backtrace

The backtrace named the field after the one being copied, passing NULL
for the "%s" for the final field.  It also reported the number of
sequence entries rather than the entry being copied.
---
 src/copy.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 6ef6e6d..c561e9e 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -318,14 +318,20 @@ static void cyaml__backtrace(
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
 			assert(state->mapping.field != NULL);
+			if (state->mapping.field == state->schema->mapping.fields) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping\n");
+				break;
+			}
+			/* The state has already moved on to the next field. */
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in mapping field: %s\n",
-					state->mapping.field->key);
+					(state->mapping.field - 1)->key);
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in sequence entry: %"PRIu64"\n",
-					state->sequence.count);
+					state->sequence.entry);
 			break;
 		default:
 			break;
-- 
2.43.0


From be7706937d2ea33d57f784098dd99990908a7f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 20/34] fix: use matching format for sequence entry message in
 save

---
 src/save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 2dd5cbc..5e98573 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1231,7 +1231,7 @@ static cyaml_err_t cyaml__write_sequence(
 		offset = data_size * ctx->state->sequence.entry;
 
 		cyaml__log(ctx->config, CYAML_LOG_INFO,
-				"Save: Sequence entry %u of %u\n",
+				"Save: Sequence entry %"PRIu64" of %"PRIu64"\n",
 				ctx->state->sequence.entry + 1,
 				ctx->state->sequence.count);
 
-- 
2.43.0


From af9e9db67ebb00ea1f6dd9fa492472a6c82b11a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 21/34] fix: use matching format for sequence count message in
 free

---
 src/free.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/free.c b/src/free.c
index 431a39e..a41b354 100644
--- a/src/free.c
+++ b/src/free.c
@@ -24,6 +24,7 @@
 
 #include <stdbool.h>
 #include <assert.h>
+#include <inttypes.h>
 #include <string.h>
 
 #include "data.h"
@@ -63,7 +64,8 @@ static void cyaml__free_sequence(
 	uint32_t data_size = schema->data_size;
 
 	cyaml__log(cfg, CYAML_LOG_DEBUG,
-			"Free: Freeing sequence with count: %u\n", count);
+			"Free: Freeing sequence with count: %"PRIu64"\n",
+			count);
 
 	if (schema->flags & CYAML_FLAG_POINTER) {
 		data_size = sizeof(data);
-- 
2.43.0


From b7b6991bc8461623d0b1d603d46820aa38e94eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 22/34] fix: do not report first field in load backtrace before
 any is seen

For a mapping schema without any fields, this passed the NULL key of the
final entry for the "%s".
---
 src/load.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/load.c b/src/load.c
index 96c154e..dd576a1 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1578,6 +1578,7 @@ static cyaml_err_t cyaml__stack_push(
 	case CYAML_STATE_IN_MAP_KEY:
 		assert(schema->type == CYAML_MAPPING);
 		s.mapping.fields = schema->mapping.fields;
+		s.mapping.fields_idx = CYAML_FIELDS_IDX_NONE;
 		s.mapping.fields_count = cyaml__get_mapping_field_count(
 				schema->mapping.fields);
 		err = cyaml__mapping_bitfieid_create(ctx, &s);
-- 
2.43.0


From 1b884905ed1e642a75140b0da179a2e760bf9482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 23/34] fix: remove stray flag from format of unsigned range
 message

---
 src/load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index dd576a1..464a453 100644
--- a/src/load.c
+++ b/src/load.c
@@ -286,7 +286,7 @@ static inline cyaml_err_t cyaml__validate_uint(
 	if ((min != 0 || max != 0) && (value < min || value > max)) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: UINT value '%" PRIu64 "' out of range "
-				"(min: %" PRIu64 " max: % " PRIu64 ")\n",
+				"(min: %" PRIu64 " max: %" PRIu64 ")\n",
 				value, min, max);
 		return CYAML_ERR_INVALID_VALUE;
 	}
-- 
2.43.0


From f4bd64912854c8eba3ea4cfbb194efaf84022d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 24/34] fix: save empty top level scalar as a document

When the top level value was an empty string, the output was an empty
stream, which does not load as an empty string.
---
 src/save.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 5e98573..c7d779c 100644
--- a/src/save.c
+++ b/src/save.c
@@ -495,6 +495,14 @@ static cyaml_err_t cyaml__emit_scalar(
 {
 	int ret;
 	yaml_event_t event;
+	yaml_scalar_style_t style = cyaml__get_emit_style_scalar(schema);
+
+	if (*value == '\0' && ctx->state->state == CYAML_STATE_IN_DOC &&
+	    (style == YAML_ANY_SCALAR_STYLE ||
+	     style == YAML_PLAIN_SCALAR_STYLE)) {
+		/* LibYAML would write nothing at all for the document. */
+		style = YAML_SINGLE_QUOTED_SCALAR_STYLE;
+	}
 
 	if (schema->type == CYAML_MAPPING) {
 		cyaml__log(ctx->config, CYAML_LOG_INFO, "Save: [%s]\n", value);
@@ -507,7 +515,7 @@ static cyaml_err_t cyaml__emit_scalar(
 			(yaml_char_t *)tag,
 			(yaml_char_t *)value,
 			(int)strlen(value),
-			1, 1, cyaml__get_emit_style_scalar(schema));
+			1, 1, style);
 
 	return cyaml__emit_event_helper(ctx, ret, &event);
 }
-- 
2.43.0


From 3113c9d0b42b899e0dd4f9c1aab12be91c8a42b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 25/34] fix: accept the largest float for strict floating point
 values

The text written when saving FLT_MAX is slightly more than FLT_MAX, so
it could not be loaded by a strict schema.
---
 src/load.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/load.c b/src/load.c
index 464a453..c24938d 100644
--- a/src/load.c
+++ b/src/load.c
@@ -416,16 +416,16 @@ static cyaml_err_t cyaml__store_float(
 	CYAML_UNUSED(ctx);
 
 	if (schema->data_size == sizeof(float)) {
-		float fvalue;
+		float fvalue = (float)value;
 
+		/* The comparison must be after rounding to float, since the
+		 * shortest text for FLT_MAX is slightly more than FLT_MAX. */
 		if (cyaml__flag_check_all(schema->flags, CYAML_FLAG_STRICT)) {
-			if (value > FLT_MAX || value < -FLT_MAX) {
+			if (fvalue > FLT_MAX || fvalue < -FLT_MAX) {
 				return CYAML_ERR_INVALID_VALUE;
 			}
 		}
 
-		fvalue = (float)value;
-
 		if (validate_cb != NULL) {
 			if (!validate_cb(ctx->config->validation_ctx,
 					schema, fvalue)) {
-- 
2.43.0


From 9b36071c8a124edf73f244e03db5d387d4dca928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:18 +0000
Subject: [PATCH 26/34] fix: free the fields after one with an unusable count
 size

Freeing a mapping stopped at the first sequence field whose count_size
is not 1 to 8 bytes, so when a load failed because of such a field, the
values of the fields declared after it were leaked.
---
 src/free.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/free.c b/src/free.c
index a41b354..c62877b 100644
--- a/src/free.c
+++ b/src/free.c
@@ -104,7 +104,8 @@ static void cyaml__free_mapping(
 			count = cyaml_data_read(schema->count_size,
 					data + schema->count_offset, &err);
 			if (err != CYAML_OK) {
-				return;
+				schema++;
+				continue;
 			}
 		}
 		cyaml__free_value(cfg, &schema->value,
-- 
2.43.0


From 7139b4b1ed8fc8bfec962dce21444f16b7e986eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 27/34] fix: check a default sequence's count size before
 copying it

The default of a missing sequence field was copied before finding that
the field's count_size is unusable, and the copy was then leaked.
---
 src/load.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/load.c b/src/load.c
index c24938d..f2baed8 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1445,6 +1445,10 @@ static cyaml_err_t cyaml__field_apply_default(
 		}
 		schema_default = schema->sequence.missing;
 		if (schema->type == CYAML_SEQUENCE) {
+			if (field->count_size == 0 ||
+			    field->count_size > sizeof(seq_count)) {
+				return CYAML_ERR_INVALID_DATA_SIZE;
+			}
 			seq_count = schema->sequence.missing_count;
 		} else {
 			seq_count = schema->sequence.max;
-- 
2.43.0


From 9a04c78b8382cf601d69f26af43efe21a1abef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 28/34] fix: reject flags with a data size over eight before
 reading them

Reading a flag given as a number shifts by an amount computed from the
data size, which is undefined when the data size exceeds eight bytes.
---
 src/load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index f2baed8..c7af669 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2195,7 +2195,7 @@ static cyaml_err_t cyaml__read_flags_value(
 	cyaml_err_t err = CYAML_OK;
 	const yaml_event_t *const event = cyaml__current_event(ctx);
 
-	if (schema->data_size == 0) {
+	if (schema->data_size == 0 || schema->data_size > sizeof(value)) {
 		return CYAML_ERR_INVALID_DATA_SIZE;
 	}
 
-- 
2.43.0


From 48f9e69f93ac59655afd13d4daa55e074d2dea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 29/34] fix: Load: Read floating point values the same in every
 locale

---
 src/load.c | 74 +++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 68 insertions(+), 6 deletions(-)

diff --git a/src/load.c b/src/load.c
index c7af669..da95580 100644
--- a/src/load.c
+++ b/src/load.c
@@ -19,6 +19,7 @@
 #include <limits.h>
 #include <errno.h>
 #include <float.h>
+#include <locale.h>
 #include <math.h>
 
 #include <yaml.h>
@@ -2022,6 +2023,65 @@ static cyaml_err_t cyaml__read_enum(
 	return CYAML_ERR_INVALID_VALUE;
 }
 
+/**
+ * Convert a string to a floating point value.
+ *
+ * The standard library reads numbers with the decimal point of the client's
+ * locale, but in a YAML document it is always a full stop.
+ *
+ * \param[in]  ctx        The CYAML loading context.
+ * \param[in]  value      String containing scaler value.
+ * \param[out] out        Returns the converted value on success.
+ * \param[out] range_out  Returns whether the value is outside the range that
+ *                        can be represented, on success.
+ * \return \ref CYAML_OK on success, or appropriate error code otherwise.
+ */
+static cyaml_err_t cyaml__strtod(
+		const cyaml_ctx_t *ctx,
+		const char *value,
+		double *out,
+		bool *range_out)
+{
+	const char *point = localeconv()->decimal_point;
+	const char *string = value;
+	char *copy = NULL;
+	char *end = NULL;
+	bool valid;
+
+	if (strcmp(point, ".") != 0) {
+		const char *stop = strchr(value, '.');
+
+		if (strstr(value, point) != NULL) {
+			return CYAML_ERR_INVALID_VALUE;
+		}
+
+		if (stop != NULL) {
+			size_t len = (size_t)(stop - value);
+
+			copy = cyaml__alloc(ctx->config, strlen(value) +
+					strlen(point), false);
+			if (copy == NULL) {
+				return CYAML_ERR_OOM;
+			}
+			memcpy(copy, value, len);
+			strcpy(copy + len, point);
+			strcat(copy + len, stop + 1);
+			string = copy;
+		}
+	}
+
+	errno = 0;
+	*out = strtod(string, &end);
+	*range_out = (errno == ERANGE);
+
+	valid = (end != string && end != NULL && *end == '\0');
+	if (copy != NULL) {
+		cyaml__free(ctx->config, copy);
+	}
+
+	return valid ? CYAML_OK : CYAML_ERR_INVALID_VALUE;
+}
+
 /**
  * Helper to read \ref CYAML_FLOAT values.
  *
@@ -2043,18 +2103,20 @@ static cyaml_err_t cyaml__read_float(
 		const char *value,
 		uint8_t *data)
 {
+	cyaml_err_t err;
 	double temp;
-	char *end = NULL;
+	bool range;
 
-	errno = 0;
-	temp = strtod(value, &end);
+	err = cyaml__strtod(ctx, value, &temp, &range);
+	if (err == CYAML_ERR_OOM) {
+		return err;
 
-	if (end == value || end == NULL || *end != '\0') {
+	} else if (err != CYAML_OK) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Invalid FLOAT value: %s\n", value);
-		return CYAML_ERR_INVALID_VALUE;
+		return err;
 
-	} else if (errno == ERANGE) {
+	} else if (range) {
 		cyaml_log_t level = CYAML_LOG_ERROR;
 
 		if (!cyaml__flag_check_all(schema->flags, CYAML_FLAG_STRICT)) {
-- 
2.43.0


From 909bc35a9d09b6c552c32fb0195a8c6160fa0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 30/34] fix: Save: Write floating point values the same in
 every locale

---
 src/save.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/save.c b/src/save.c
index c7d779c..044ec06 100644
--- a/src/save.c
+++ b/src/save.c
@@ -17,6 +17,7 @@
 #include <assert.h>
 #include <float.h>
 #include <limits.h>
+#include <locale.h>
 
 #include <yaml.h>
 
@@ -558,6 +559,31 @@ static const char * cyaml__get_uint(
 	return string;
 }
 
+/**
+ * Replace the decimal point of the client's locale with a full stop.
+ *
+ * The standard library writes numbers with the decimal point of the locale,
+ * but in a YAML document it is always a full stop.
+ *
+ * \param[in,out]  string  String representation of a floating point value.
+ * \return the updated string.
+ */
+static const char * cyaml__float_point(
+		char *string)
+{
+	const char *point = localeconv()->decimal_point;
+	char *pos = strstr(string, point);
+
+	if (pos != NULL) {
+		const char *fraction = pos + strlen(point);
+
+		*pos++ = '.';
+		memmove(pos, fraction, strlen(fraction) + 1);
+	}
+
+	return string;
+}
+
 /**
  * Get string representation for single precision floating point values.
  *
@@ -575,7 +601,7 @@ static const char * cyaml__get_float(
 		sprintf(string, "%.*g", precision, (double)value);
 	} while (strtof(string, NULL) != value && precision++ < FLT_DECIMAL_DIG);
 
-	return string;
+	return cyaml__float_point(string);
 }
 
 /**
@@ -590,7 +616,7 @@ static const char * cyaml__get_double(
 {
 	sprintf(string, "%.16e", value);
 
-	return string;
+	return cyaml__float_point(string);
 }
 
 /**
-- 
2.43.0


From 8a9414651bbe039c3ed02c4fbb90e6726edff608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 31/34] fix: Bitfield: Don't shift by the full width for
 zero-width components

---
 src/load.c | 8 ++++++--
 src/save.c | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/load.c b/src/load.c
index da95580..fab9846 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2380,7 +2380,9 @@ static cyaml_err_t cyaml__set_bitval(
 		return CYAML_ERR_UNEXPECTED_EVENT;
 	}
 
-	mask = (~(uint64_t)0) >> ((8 * sizeof(uint64_t)) - bitdef[index].bits);
+	/* Note: Shifting by the full width of the type is undefined. */
+	mask = (bitdef[index].bits == 0) ? 0 : (~(uint64_t)0) >>
+			((8 * sizeof(uint64_t)) - bitdef[index].bits);
 	if (value > mask) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Value too big for bits: %s\n",
@@ -2388,7 +2390,9 @@ static cyaml_err_t cyaml__set_bitval(
 		return CYAML_ERR_INVALID_VALUE;
 	}
 
-	*bits_out |= value << bitdef[index].offset;
+	if (value != 0) {
+		*bits_out |= value << bitdef[index].offset;
+	}
 	return CYAML_OK;
 }
 
diff --git a/src/save.c b/src/save.c
index 044ec06..8df5375 100644
--- a/src/save.c
+++ b/src/save.c
@@ -967,6 +967,11 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 			return CYAML_ERR_BAD_BITVAL_IN_SCHEMA;
 		}
 
+		if (bitdef[i].bits == 0) {
+			/* Note: Shifting by the full width is undefined. */
+			continue;
+		}
+
 		mask = ((~(uint64_t)0) >>
 		        ((8 * sizeof(uint64_t)) - bitdef[i].bits)
 		       ) << bitdef[i].offset;
-- 
2.43.0


From 72001c13edaa9533ec222f5649d2147f1c813959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 32/34] fix: Load: Check bitfield data size before shifting by
 it

---
 src/load.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/load.c b/src/load.c
index fab9846..fdcbc43 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2417,6 +2417,10 @@ static cyaml_err_t cyaml__read_bitfield_value(
 	cyaml_err_t err = CYAML_OK;
 	const yaml_event_t *const event = cyaml__current_event(ctx);
 
+	if (schema->data_size == 0 || schema->data_size > sizeof(value)) {
+		return CYAML_ERR_INVALID_DATA_SIZE;
+	}
+
 	while (!exit) {
 		cyaml_event_t cyaml_event;
 		err = cyaml_get_next_event(ctx);
-- 
2.43.0


From b2761156ddca9d935b492a311c01785ed24afec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 33/34] fix: Load: Accept negative zero for flags, as before

---
 src/load.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index fdcbc43..1052d1e 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2223,7 +2223,8 @@ static cyaml_err_t cyaml__set_flag(
 		temp = strtoull(value, &end, 0);
 
 		if (!(end == value || end == NULL || *end != '\0' ||
-		      errno == ERANGE || strchr(value, '-') != NULL ||
+		      errno == ERANGE ||
+		      (temp != 0 && strchr(value, '-') != NULL) ||
 		      (uint64_t)temp > max)) {
 			*flags_out |= ((uint64_t)temp);
 			return CYAML_OK;
-- 
2.43.0


From 29835d251d27d5d33288f8126455ab3098d80719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 34/34] fix: refuse a default sequence longer than its field's
 count can hold

---
 src/load.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/load.c b/src/load.c
index 1052d1e..a7534d2 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1451,6 +1451,15 @@ static cyaml_err_t cyaml__field_apply_default(
 				return CYAML_ERR_INVALID_DATA_SIZE;
 			}
 			seq_count = schema->sequence.missing_count;
+			if (field->count_size < sizeof(seq_count) &&
+			    (seq_count >> (field->count_size * 8)) != 0) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"Load: Default sequence entry "
+						"count does not fit in count "
+						"size (%u)\n",
+						(unsigned)field->count_size);
+				return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
+			}
 		} else {
 			seq_count = schema->sequence.max;
 		}
-- 
2.43.0

