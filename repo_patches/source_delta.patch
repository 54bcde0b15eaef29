From 7fd036ecabf94bc405b7a5a58b51b0afa9ca64d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 01/62] fix: filter: avoid signed overflow when shifting by
 downlink format 31

---
 src/core/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/filter.c b/src/core/filter.c
index c873aaf..e9ed2a5 100644
--- a/src/core/filter.c
+++ b/src/core/filter.c
@@ -169,7 +169,7 @@ bool FILTER_filter(enum OPENSKY_FRAME_TYPE frameType, uint8_t firstByte)
 	uint_fast32_t ftype = (firstByte >> 3) & 0x1f;
 	++stats.modeSByType[ftype];
 	/* apply filter */
-	if (!((1 << ftype) & modeSFilter)) {
+	if (!((UINT32_C(1) << ftype) & (uint32_t)modeSFilter)) {
 		++stats.filtered;
 		++stats.modeSfiltered;
 		return false;
-- 
2.43.0


From a23ab034774ed266b39fca2276ad2c98cc43bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 02/62] fix: cfgfile: access option variables by their own
 type, not as a larger union

---
 src/util/cfgfile.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 2d60544..e5e778c 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -711,16 +711,16 @@ static bool readCfg()
  */
 static void assignOptionFromDefault(const struct CFG_Option * opt)
 {
-	union CFG_Value * val = opt->var;
+	/* note: the variable has the option's type, it is not a union CFG_Value */
 	switch (opt->type) {
 	case CFG_VALUE_TYPE_BOOL:
-		val->boolean = opt->def.boolean;
+		*(bool*)opt->var = opt->def.boolean;
 		break;
 	case CFG_VALUE_TYPE_INT:
-		val->integer = opt->def.integer;
+		*(uint32_t*)opt->var = opt->def.integer;
 		break;
 	case CFG_VALUE_TYPE_PORT:
-		val->port = opt->def.port;
+		*(uint_fast16_t*)opt->var = opt->def.port;
 		break;
 	case CFG_VALUE_TYPE_STRING:
 		if (opt->def.string)
@@ -729,7 +729,7 @@ static void assignOptionFromDefault(const struct CFG_Option * opt)
 			((char*)opt->var)[0] = '\0';
 		break;
 	case CFG_VALUE_TYPE_DOUBLE:
-		val->dbl = opt->def.dbl;
+		*(double*)opt->var = opt->def.dbl;
 		break;
 	}
 	if (opt->given)
@@ -775,7 +775,7 @@ void CFG_setBoolean(const char * section, const char * key, bool value)
 	const struct CFG_Option * opt = getOptionByString(section, key);
 	if (opt) {
 		assert(opt->type == CFG_VALUE_TYPE_BOOL);
-		((union CFG_Value*)opt->var)->boolean = value;
+		*(bool*)opt->var = value;
 	}
 }
 
@@ -789,7 +789,7 @@ void CFG_setInteger(const char * section, const char * key, uint32_t value)
 	const struct CFG_Option * opt = getOptionByString(section, key);
 	if (opt) {
 		assert(opt->type == CFG_VALUE_TYPE_INT);
-		((union CFG_Value*)opt->var)->integer = value;
+		*(uint32_t*)opt->var = value;
 	}
 }
 
@@ -803,7 +803,7 @@ void CFG_setPort(const char * section, const char * key, uint_fast16_t value)
 	const struct CFG_Option * opt = getOptionByString(section, key);
 	if (opt) {
 		assert(opt->type == CFG_VALUE_TYPE_PORT);
-		((union CFG_Value*)opt->var)->port = value;
+		*(uint_fast16_t*)opt->var = value;
 	}
 }
 
@@ -831,7 +831,7 @@ void CFG_setDouble(const char * section, const char * key, double value)
 	const struct CFG_Option * opt = getOptionByString(section, key);
 	if (opt) {
 		assert(opt->type == CFG_VALUE_TYPE_DOUBLE);
-		((union CFG_Value*)opt->var)->dbl = value;
+		*(double*)opt->var = value;
 	}
 }
 
@@ -873,7 +873,7 @@ static bool writeOptions(FILE * file, const struct CFG_Section * section)
 	size_t n;
 	for (n = 0; n < section->n_opt; ++n) {
 		const struct CFG_Option * opt = &section->options[n];
-		const union CFG_Value * val = opt->var;
+		const void * val = opt->var;
 
 		if (opt->given && !*opt->given && opt->defaultEmpty) {
 			fprintf(file, "; %s = \n", opt->name);
@@ -886,15 +886,16 @@ static bool writeOptions(FILE * file, const struct CFG_Section * section)
 		/* write option value, depending on its type */
 		switch (opt->type) {
 		case CFG_VALUE_TYPE_BOOL:
-			if (fprintf(file, "%s\n", val->boolean ? "true" : "false") < 0)
+			if (fprintf(file, "%s\n", *(const bool*)val ? "true" : "false") < 0)
 				return false;
 			break;
 		case CFG_VALUE_TYPE_INT:
-			if (fprintf(file, "%" PRIu32 "\n", val->integer) < 0)
+			if (fprintf(file, "%" PRIu32 "\n", *(const uint32_t*)val) < 0)
 				return false;
 			break;
 		case CFG_VALUE_TYPE_PORT:
-			if (fprintf(file, "%" PRIuFAST16 "\n", val->port) < 0)
+			if (fprintf(file, "%" PRIuFAST16 "\n",
+				*(const uint_fast16_t*)val) < 0)
 				return false;
 			break;
 		case CFG_VALUE_TYPE_STRING:
@@ -902,7 +903,7 @@ static bool writeOptions(FILE * file, const struct CFG_Section * section)
 				return false;
 			break;
 		case CFG_VALUE_TYPE_DOUBLE:
-			if (fprintf(file, "%f\n", val->dbl) < 0)
+			if (fprintf(file, "%f\n", *(const double*)val) < 0)
 				return false;
 			break;
 		}
-- 
2.43.0


From 03a2d25a5a24341dbb24ee74732738fb92783de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 03/62] fix: cfgfile: do not crash on a last line without '='

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index e5e778c..a4ad06e 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -619,7 +619,7 @@ static bool parseOption()
 	bufferInput = n + 1;
 
 	/* sanity check */
-	if (unlikely(n < e)) {
+	if (unlikely(e == NULL || n < e)) {
 		err(LOG_LEVEL_ERROR, "'=' expected before end of line");
 		++bufferLine;
 		return false;
-- 
2.43.0


From 5d70e98cd9729da064a0fb6c1bf90e7b8a273ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 04/62] fix: cfgfile: do not read before an empty value

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index a4ad06e..799453c 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -639,7 +639,7 @@ static bool parseOption()
 		size_t valLen = n - value;
 
 		/* eliminate \r at the end of the value */
-		if (value[valLen - 1] == '\r')
+		if (valLen > 0 && value[valLen - 1] == '\r')
 			--valLen;
 
 		/* get option by section and key name */
-- 
2.43.0


From 315bece101b3aac8e8ffce31d354f1cc5236c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 05/62] fix: cfgfile: do not drop the last character of a file
 without final newline

---
 src/util/cfgfile.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 799453c..9e1ef2e 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -363,10 +363,11 @@ static enum SECTION_STATE parseSection()
 {
 	/* get next ']' terminator */
 	const char * c = memchr(bufferInput, ']', bufferSize);
-	/* get next newline or end-of-file */
+	/* get next newline or end-of-file (which ends the last line as well) */
+	const char * const end = bufferInput + bufferSize;
 	const char * n = memchr(bufferInput, '\n', bufferSize);
 	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+		n = end;
 
 	/* sanity checks */
 	if (!c || n < c) {
@@ -383,8 +384,8 @@ static enum SECTION_STATE parseSection()
 	const char * const buf = bufferInput + 1;
 
 	/* advance parser */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	bufferInput = n == end ? end : n + 1;
+	bufferSize = end - bufferInput;
 	++bufferLine;
 
 	/* search section: check if there is at least one section with that name */
@@ -608,15 +609,17 @@ static bool parseOption()
 {
 	/* split option on '='-sign */
 	const char * e = memchr(bufferInput, '=', bufferSize);
+	/* get next newline or end-of-file (which ends the last line as well) */
+	const char * const end = bufferInput + bufferSize;
 	const char * n = memchr(bufferInput, '\n', bufferSize);
 	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+		n = end;
 
 	const char * key = bufferInput;
 
 	/* advance buffer */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	bufferInput = n == end ? end : n + 1;
+	bufferSize = end - bufferInput;
 
 	/* sanity check */
 	if (unlikely(e == NULL || n < e)) {
-- 
2.43.0


From f847925a4a46f893274da9e4e570ad0f5fcf9137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 06/62] fix: cfgfile: reject values which are no number or out
 of range

---
 src/util/cfgfile.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 9e1ef2e..6f070e7 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -436,7 +436,16 @@ static inline bool parseInt(const char * value, size_t valLen, uint32_t * ret)
 	buf[valLen] = '\0';
 
 	char * end;
+	errno = 0;
 	unsigned long int n = strtoul(buf, &end, 0);
+	if (end == buf || memchr(buf, '-', end - buf)) {
+		err(LOG_LEVEL_ERROR, "Number expected");
+		return false;
+	}
+	if (errno == ERANGE || n > UINT32_MAX) {
+		err(LOG_LEVEL_ERROR, "Number out of range");
+		return false;
+	}
 	if (*end != '\0')
 		err(LOG_LEVEL_WARN, "Garbage after number ignored");
 	*ret = n;
@@ -526,6 +535,10 @@ static inline bool parseDouble(const char * value, size_t valLen, double * ret)
 
 	char * end;
 	double d = strtod(buf, &end);
+	if (end == buf) {
+		err(LOG_LEVEL_ERROR, "Number expected");
+		return false;
+	}
 	if (*end != '\0')
 		err(LOG_LEVEL_WARN, "Garbage after number ignored");
 	*ret = d;
-- 
2.43.0


From f2dac62eb741020b72680483546c7ce1e354626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 07/62] fix: cfgfile: fail on invalid values if requested
 (onErrorUseDefault = false)

---
 src/util/cfgfile.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 6f070e7..e06c792 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -615,8 +615,8 @@ static const struct CFG_Option * getOption(const char * section,
 	return NULL;
 }
 
-/** Parse an option line.
- * @return true if parsing succeeded
+/** Parse an option line. Lines without '=' are reported and skipped.
+ * @return false if a value could not be parsed and reading should fail
  */
 static bool parseOption()
 {
@@ -638,7 +638,7 @@ static bool parseOption()
 	if (unlikely(e == NULL || n < e)) {
 		err(LOG_LEVEL_ERROR, "'=' expected before end of line");
 		++bufferLine;
-		return false;
+		return true;
 	}
 
 	if (sectionState == SECTION_STATE_VALID) {
@@ -716,7 +716,8 @@ static bool readCfg()
 			if (sectionState == SECTION_STATE_NOSECTION && optWarnUnknownOption)
 				LOG_logf(LOG_LEVEL_WARN, PFX, "Line %" PRIuFAST32 ": "
 					"Unexpected option outside any section", bufferLine);
-			parseOption();
+			if (!parseOption())
+				return false;
 		}
 	}
 	return true;
-- 
2.43.0


From e94fa4c25eab58504753609a38113a613a9c9fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 08/62] fix: cfgfile: sanitize the configuration after a failed
 read, too

---
 src/util/cfgfile.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index e06c792..17ae1d4 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -145,9 +145,8 @@ bool CFG_readFile(const char * file, bool warnUnknownSection,
 
 	MMAP_close(map);
 
-	/* fix configuration */
-	if (success)
-		fix();
+	/* fix configuration, some values may be assigned even if reading failed */
+	fix();
 
 	return success;
 }
-- 
2.43.0


From 0ccac1ba699bba941264a5cda26abe18e059e262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 09/62] fix: cfgfile: report write errors which show up upon
 closing the file

---
 src/util/cfgfile.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 17ae1d4..d0c8689 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -987,7 +987,12 @@ bool CFG_write(const char * filename)
 
 	bool rc = writeSections(file);
 
-	fclose(file);
+	/* buffered data might be written as late as here */
+	if (fclose(file) != 0)
+		rc = false;
+	if (!rc)
+		LOG_logf(LOG_LEVEL_ERROR, PFX, "Could not write configuration file '%s'",
+			filename);
 
 	return rc;
 }
@@ -1009,7 +1014,12 @@ bool CFG_writeSection(const char * filename, const struct CFG_Section * section)
 	bool rc = fprintf(file, "[%s]\n", section->name) >= 0 &&
 		writeOptions(file, section);
 
-	fclose(file);
+	/* buffered data might be written as late as here */
+	if (fclose(file) != 0)
+		rc = false;
+	if (!rc)
+		LOG_logf(LOG_LEVEL_ERROR, PFX, "Could not write configuration file '%s'",
+			filename);
 
 	return rc;
 }
-- 
2.43.0


From 9f9b0f9de89eae1dddb3a8f9e0f17106baac5edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 10/62] fix: cfgfile: write doubles such that they are read
 back unchanged

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index d0c8689..e3aa183 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -919,7 +919,7 @@ static bool writeOptions(FILE * file, const struct CFG_Section * section)
 				return false;
 			break;
 		case CFG_VALUE_TYPE_DOUBLE:
-			if (fprintf(file, "%f\n", *(const double*)val) < 0)
+			if (fprintf(file, "%.17g\n", *(const double*)val) < 0)
 				return false;
 			break;
 		}
-- 
2.43.0


From c8847cb6e95a201085cdf5b102a3612ff806f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 11/62] fix: cfgfile: terminate over-long strings set by
 CFG_setString

---
 src/util/cfgfile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index e3aa183..2379cef 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -834,6 +834,8 @@ void CFG_setString(const char * section, const char * key, const char * value)
 	if (opt) {
 		assert(opt->type == CFG_VALUE_TYPE_STRING);
 		strncpy(opt->var, value, opt->maxlen);
+		if (opt->maxlen > 0)
+			((char*)opt->var)[opt->maxlen - 1] = '\0';
 	}
 }
 
-- 
2.43.0


From db39d50c33a7346254e41022ce334b0fea166519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 12/62] fix: cfgfile: keep room for the terminator of directory
 entries

---
 src/util/cfgfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 2379cef..03ba537 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -230,7 +230,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		/* build filename */
 		const char * fname = namelist[n]->d_name;
 		size_t flen = strlen(namelist[n]->d_name);
-		if (flen > len) {
+		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s/%s' is too long", path,
 				fname);
 			if (stopOnFirstError)
@@ -300,7 +300,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		if (flen < 5 || strcmp(fname + flen - 5, ".conf"))
 			continue;
 
-		if (flen > len) {
+		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s\\%s' is too long", path,
 				fname);
 			if (stopOnFirstError)
-- 
2.43.0


From ab168951013973cd74b685860bf0fdf083d60efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 13/62] fix: mmap: an empty file is no error

---
 src/util/port/mmap-posix.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/port/mmap-posix.c b/src/util/port/mmap-posix.c
index e10595c..4d302e7 100644
--- a/src/util/port/mmap-posix.c
+++ b/src/util/port/mmap-posix.c
@@ -34,8 +34,10 @@ struct MMAP * MMAP_open(const char * prefix, const char * file)
 		return NULL;
 	}
 
-	/* mmap input file and close file descriptor */
-	void * ptr = mmap(NULL, st.st_size, PROT_READ, MAP_SHARED, fd, 0);
+	/* mmap input file and close file descriptor (empty files can't be mapped) */
+	void * ptr = NULL;
+	if (st.st_size > 0)
+		ptr = mmap(NULL, st.st_size, PROT_READ, MAP_SHARED, fd, 0);
 	close(fd);
 	if (ptr == MAP_FAILED) {
 		LOG_errno(LOG_LEVEL_ERROR, prefix, "Could not mmap '%s'", file);
@@ -55,7 +57,8 @@ struct MMAP * MMAP_open(const char * prefix, const char * file)
 void MMAP_close(struct MMAP * map)
 {
 	/* unmap file */
-	munmap(map->ptr, map->len);
+	if (map->len > 0)
+		munmap(map->ptr, map->len);
 
 	free(map);
 }
-- 
2.43.0


From ef27b60afffd32329399cedc2b3444215efdd1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 14/62] fix: dump1090: reject a latitude or longitude which is
 not a number

---
 src/dump1090/position.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump1090/position.c b/src/dump1090/position.c
index 1e7bedd..1561269 100644
--- a/src/dump1090/position.c
+++ b/src/dump1090/position.c
@@ -82,11 +82,11 @@ static bool checkCfg(const struct CFG_Section * sect)
 			LOG_logf(LOG_LEVEL_EMERG, PFX, "%s is not configured", opt->name);
 	}
 
-	if (latitude < -90 || latitude > 90)
+	if (!(latitude >= -90 && latitude <= 90))
 		LOG_log(LOG_LEVEL_EMERG, PFX, "Latitude must be given within +/-90 "
 			"degrees");
 
-	if (longitude < -180 || longitude > 180)
+	if (!(longitude >= -180 && longitude <= 180))
 		LOG_log(LOG_LEVEL_EMERG, PFX, "Longitude must be given within +/-180 "
 			"degrees");
 
-- 
2.43.0


From 6e4d27172b26da386c3877dfbd26ef07fbcb9097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 15/62] fix: cfgfile: report failure if any file of a directory
 could not be read

---
 src/util/cfgfile.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 03ba537..788acf3 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -224,7 +224,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 	len = sizeof filename - (len + 1);
 
 	/* iterate over all files */
-	bool ret = false;
+	bool ret = true;
 	int n;
 	for (n = 0; n < s; ++n) {
 		/* build filename */
@@ -233,6 +233,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s/%s' is too long", path,
 				fname);
+			ret = false;
 			if (stopOnFirstError)
 				goto ret;
 			continue;
@@ -241,10 +242,12 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 
 		/* read file */
 		if (!CFG_readFile(filename, warnUnknownSection, warnUnknownOption,
-			onErrorUseDefault) && stopOnFirstError)
-			goto ret;
+			onErrorUseDefault)) {
+			ret = false;
+			if (stopOnFirstError)
+				goto ret;
+		}
 	}
-	ret = true;
 
 ret:
 	/* free filenames */
@@ -290,7 +293,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 	len = sizeof filename - (len + 1);
 
 	/* iterate over all files */
-	bool ret = false;
+	bool ret = true;
 	struct dirent * ent;
 	while ((ent = readdir(dir)) != NULL) {
 		/* build filename */
@@ -303,6 +306,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s\\%s' is too long", path,
 				fname);
+			ret = false;
 			if (stopOnFirstError)
 				goto ret;
 			continue;
@@ -311,10 +315,12 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 
 		/* read file */
 		if (!CFG_readFile(filename, warnUnknownSection, warnUnknownOption,
-			onErrorUseDefault) && stopOnFirstError)
-			goto ret;
+			onErrorUseDefault)) {
+			ret = false;
+			if (stopOnFirstError)
+				goto ret;
+		}
 	}
-	ret = true;
 
 ret:
 	closedir(dir);
-- 
2.43.0


From bb60c7baa56d400a26b27db970e25cba9d502e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 16/62] fix: buffer: GCLevel = 0 must not divide by zero

---
 src/core/buffer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index cbad706..cdfbd10 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -186,6 +186,11 @@ static void cfgFix(const struct CFG_Section * sect)
 		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.staticBacklog was increased to 2");
 	}
 
+	if (cfg.gcLevel == 0) {
+		cfg.gcLevel = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.GCLevel was increased to 1");
+	}
+
 	if (cfg.gc && !cfg.history) {
 		cfg.gc = false;
 		LOG_log(LOG_LEVEL_WARN, PFX, "Ignoring BUFFER.GC because "
-- 
2.43.0


From ad4eaea1f8b6dbed1aa0c08e5d53f935716c5ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 17/62] fix: buffer: do not create dynamic pools without frames

---
 src/core/buffer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index cdfbd10..c34d8b3 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -212,7 +212,8 @@ static bool construct()
 
 	newFrame = currentFrame = NULL;
 
-	dynMaxPools = cfg.history ? cfg.dynIncrement : 0;
+	/* dynamic pools without frames are of no use */
+	dynMaxPools = cfg.history && cfg.dynBacklog > 0 ? cfg.dynIncrement : 0;
 
 	/* deploy static pool */
 	if (!deployPool(&staticPool, cfg.statBacklog)) {
-- 
2.43.0


From 55ecb7d1db78146819dd1e3512c1339985b1bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 18/62] fix: list: set tail when prepending a list to an empty
 single linked list

---
 src/util/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/list.h b/src/util/list.h
index a1bd626..10008c8 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -758,7 +758,7 @@ static inline void LIST_concatenateUnshiftS(struct LIST_ListS * __restrict dst,
 	if (likely(!LIST_emptyS(src))) {
 		src->tail->next = dst->head;
 		if (LIST_emptyS(dst))
-			dst->tail = src->head;
+			dst->tail = src->tail;
 		dst->head = src->head;
 
 		LIST_initS(src);
-- 
2.43.0


From 986b9ce0145921560c3c574c9c0702282b87c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 19/62] fix: list: eager separation of a list which is lazily
 counted

---
 src/util/list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/list.h b/src/util/list.h
index 10008c8..0758a6e 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -494,6 +494,7 @@ static inline void LIST_separateFromDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateFromFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	LIST_lengthDC(list); /* the counter must be valid before it is adapted */
 	LIST_separateFromDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
@@ -539,6 +540,7 @@ static inline void LIST_separateUntilDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateUntilFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	LIST_lengthDC(list); /* the counter must be valid before it is adapted */
 	LIST_separateUntilDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
-- 
2.43.0


From 33fd8f413fad9cc84e70b3e625d5f084a13de7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 20/62] fix: network: send only the rest of a message after a
 partial write

The full message length was passed again, so that bytes behind the message
were read and sent (and the end was missed).
---
 src/core/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/network.c b/src/core/network.c
index 6c38e29..af3f8c9 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -368,7 +368,7 @@ static bool trySend(const void * buf, size_t len)
 	const char * end = ptr + len;
 
 	do {
-		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, len, 0);
+		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);
 		if (rc <= 0) {
 			/* report failure */
 #ifdef DEBUG
-- 
2.43.0


From 2e20e775012ec8f61de6e18602e499e040205500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 21/62] fix: network: do not abort if a second sender fails
 while disconnected

NET_send is not only called by the relay but also by position updates. If
both sides have already seen the failure and another sender fails before the
reconnection starts, there is nothing more to be done.
---
 src/core/network.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index af3f8c9..587b5e9 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -308,8 +308,7 @@ static enum ACTION emitDisconnect(enum EMIT_BY by)
 			transState = TRANSIT_NONE;
 		}
 	} else if (connState != CONN_STATE_SHUTDOWN &&
-		transState != (enum TRANSIT_STATE)by) {
-		assert(transState != TRANSIT_NONE);
+		transState != TRANSIT_NONE && transState != (enum TRANSIT_STATE)by) {
 		/* we have not been reconnected yet, but the follower has seen the
 		 * failure -> close the stale socket */
 		SOCK_close(*mysock);
-- 
2.43.0


From 11fc77147b437a077c656792e1f6037f94e01c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 22/62] fix: network: leave no open or stale socket behind when
 stopping

If the follower had not yet seen a connection loss, its stale socket was
never closed. Otherwise, sendsock kept the number of the closed socket.
---
 src/core/network.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index 587b5e9..375772a 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -165,21 +165,27 @@ static bool checkCfg(const struct CFG_Section * sect)
 
 static void cleanupMain()
 {
+	/* close the current connection */
 	if (connState == CONN_STATE_CONNECTED) {
 		switch (transState) {
 		case TRANSIT_NONE:
 		case TRANSIT_SEND:
 			SOCK_shutdown(recvsock, SHUT_RDWR);
 			SOCK_close(recvsock);
-			recvsock = SOCK_INVALID;
 			break;
 		case TRANSIT_RECV:
 			SOCK_shutdown(sendsock, SHUT_RDWR);
 			SOCK_close(sendsock);
-			sendsock = SOCK_INVALID;
 			break;
 		}
 	}
+	/* close the stale socket which the follower has not yet closed */
+	if (transState == TRANSIT_SEND)
+		SOCK_close(sendsock);
+	else if (transState == TRANSIT_RECV)
+		SOCK_close(recvsock);
+	recvsock = sendsock = SOCK_INVALID;
+	transState = TRANSIT_NONE;
 	connState = CONN_STATE_SHUTDOWN;
 	pthread_mutex_unlock(&mutex);
 }
-- 
2.43.0


From 5036eb0e2f9f42fc554eb13a3958cc48f46af04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 23/62] fix: network: do not silently continue receiving from
 the next connection

If the sender had seen a connection loss first and the connection was
reestablished before the receiver noticed, NET_receive returned data of the
new connection. The caller appended that to an incomplete packet of the old
connection.
---
 src/core/network.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index 375772a..bfa336f 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -413,17 +413,18 @@ bool NET_send(const void * buf, size_t len)
  */
 ssize_t NET_receive(uint8_t * buf, size_t len)
 {
-	do {
-		ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
-		if (rc > 0) {
-			stats.bytesReceived += rc;
-			return rc;
-		}
+	ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
+	if (rc > 0) {
+		stats.bytesReceived += rc;
+		return rc;
+	}
 #ifdef DEBUG
-		LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
-			rc == 0 ? "Connection lost" : strerror(errno));
+	LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
+		rc == 0 ? "Connection lost" : strerror(errno));
 #endif
-	} while (emitDisconnect(EMIT_BY_RECV) == ACTION_RETRY);
+	/* note: even if the connection was already reestablished, we must tell
+	 * our caller, as data of two connections must not be mixed */
+	emitDisconnect(EMIT_BY_RECV);
 	return 0;
 }
 
-- 
2.43.0


From e26917d2101297550ecf3415894636ab1465bae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 24/62] fix: net_common: close the socket if cancelled while
 connecting

---
 src/util/net_common-posix.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/util/net_common-posix.c b/src/util/net_common-posix.c
index 69ab469..7e0c1cc 100644
--- a/src/util/net_common-posix.c
+++ b/src/util/net_common-posix.c
@@ -23,6 +23,8 @@ struct Hosts {
 	struct addrinfo * hosts;
 	/** Pointers into hosts, in random order */
 	struct addrinfo ** shuffled;
+	/** Socket which is not yet connected or SOCK_INVALID */
+	sock_t sock;
 };
 
 /** Cleanup Routine
@@ -33,6 +35,8 @@ static void cleanup(struct Hosts * hosts)
 	if (hosts) {
 		if (hosts->hosts)
 			freeaddrinfo(hosts->hosts);
+		if (hosts->sock != SOCK_INVALID)
+			SOCK_close(hosts->sock);
 		free(hosts->shuffled);
 		free(hosts);
 	}
@@ -56,6 +60,7 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		LOG_errno(LOG_LEVEL_EMERG, prefix, "malloc failed");
 	hosts->hosts = NULL;
 	hosts->shuffled = NULL;
+	hosts->sock = SOCK_INVALID;
 
 	hints.ai_family = AF_UNSPEC;
 	hints.ai_socktype = SOCK_STREAM;
@@ -129,8 +134,10 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		if (sock == SOCK_INVALID)
 			LOG_errnet(LOG_LEVEL_ERROR, prefix, "could not create socket");
 
-		/* connect socket */
+		/* connect socket (which is closed if we are cancelled meanwhile) */
+		hosts->sock = sock;
 		rc = SOCK_connect(sock, addr, host->ai_addrlen);
+		hosts->sock = SOCK_INVALID;
 		if (rc == SOCK_ERROR) {
 			LOG_errnet(LOG_LEVEL_WARN, prefix, "Could not connect");
 			SOCK_close(sock);
-- 
2.43.0


From a7df84fe0b166fad6b10fe8ff7811c98a267d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 25/62] fix: net_common: do not connect or close an invalid
 socket

---
 src/util/net_common-posix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/net_common-posix.c b/src/util/net_common-posix.c
index 7e0c1cc..d1957f2 100644
--- a/src/util/net_common-posix.c
+++ b/src/util/net_common-posix.c
@@ -131,8 +131,10 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		/* create socket */
 		sock = SOCK_socket(host->ai_family, host->ai_socktype | SOCK_CLOEXEC,
 			host->ai_protocol);
-		if (sock == SOCK_INVALID)
+		if (sock == SOCK_INVALID) {
 			LOG_errnet(LOG_LEVEL_ERROR, prefix, "could not create socket");
+			continue;
+		}
 
 		/* connect socket (which is closed if we are cancelled meanwhile) */
 		hosts->sock = sock;
-- 
2.43.0


From 01db9b5b73d44bb824428ed81ed73e3d4d887c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 26/62] fix: trimble: do not take an escaped BOM for the start
 of a frame

A frame cannot start with BOM (see synchronize()). When the input starts in
the middle of a frame, BOM BOM is an escaped data byte.
---
 src/trimble/trimble_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trimble/trimble_parser.c b/src/trimble/trimble_parser.c
index 5ed506f..401233a 100644
--- a/src/trimble/trimble_parser.c
+++ b/src/trimble/trimble_parser.c
@@ -109,9 +109,9 @@ decode_frame:
 		/* decode type */
 		if (unlikely(!next(buf)))
 			return false;
-		if (unlikely(*buf == EOM)) {
-			LOG_log(LOG_LEVEL_WARN, PFX, "Out of Sync: got unescaped EOM in "
-				"frame, resynchronizing");
+		if (unlikely(*buf == EOM || *buf == BOM)) {
+			LOG_log(LOG_LEVEL_WARN, PFX, "Out of Sync: got EOM or escaped BOM "
+				"instead of frame, resynchronizing");
 			goto synchronize;
 		}
 		size_t len = bufLen - 1;
-- 
2.43.0


From 2d4c33e67f977415de0d80af63171c6fcd381518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 27/62] fix: network: sending while disconnected must not break
 the next connection

Sending without connection used descriptor 0 before the first connection.
Later, it was reported as failure, possibly only after the reconnection
(which holds the mutex) and thus tore down the new connection.
---
 src/core/network.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index bfa336f..fc24caf 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -29,9 +29,9 @@ static const char PFX[] = "NET";
 #define RECONNET_INTERVAL 10
 
 /** Networking socket: receiving socket */
-static sock_t recvsock;
+static sock_t recvsock = SOCK_INVALID;
 /** Networking socket: sending socket */
-static sock_t sendsock;
+static sock_t sendsock = SOCK_INVALID;
 
 /** Mutex for all shared variables */
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
@@ -372,6 +372,11 @@ static bool trySend(const void * buf, size_t len)
 	const char * ptr = buf;
 	const char * end = ptr + len;
 
+	/* if we are not connected, the failure is already known. Reporting it
+	 * could hit the next connection */
+	if (sendsock == SOCK_INVALID)
+		return false;
+
 	do {
 		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);
 		if (rc <= 0) {
-- 
2.43.0


From cab2e522a1872a552ab1c358fd4fbe78cec4eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 28/62] fix: network: initialize the connection state with the
 mutex held

Other threads can already be waiting for the connection (data race).
---
 src/core/network.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index fc24caf..6df877a 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -193,10 +193,9 @@ static void cleanupMain()
 /** Mainloop for network: (re)established network connection on failure */
 static void mainloop()
 {
+	pthread_mutex_lock(&mutex);
 	connState = CONN_STATE_DISCONNECTED;
 	transState = TRANSIT_NONE;
-
-	pthread_mutex_lock(&mutex);
 	CLEANUP_PUSH(&cleanupMain, NULL);
 	while (true) {
 		assert(connState == CONN_STATE_DISCONNECTED);
-- 
2.43.0


From 87f1fc9e4d94e536676620e6a14d167c05af6f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 29/62] fix: talkback: no out of bounds or unaligned pointers
 for unknown packets

---
 src/core/tb.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/tb.c b/src/core/tb.c
index c3260e5..cbea5ec 100644
--- a/src/core/tb.c
+++ b/src/core/tb.c
@@ -119,7 +119,8 @@ static void mainloop()
 			while (bufLen >= 4) {
 				/* enough data to read header */
 				struct TB_Packet frame;
-				uint16_t * buf16 = (uint16_t*)buf;
+				uint16_t buf16[2];
+				memcpy(buf16, buf, sizeof buf16);
 				frame.type = be16toh(buf16[0]);
 				frame.len = be16toh(buf16[1]);
 				if (frame.len > 128 || frame.len < 4) {
@@ -160,9 +161,10 @@ static void mainloop()
 static void processPacket(const struct TB_Packet * packet)
 {
 	static const uint_fast32_t n_processors = ARRAY_SIZE(processors);
-	const struct PacketProcessor * processor = &processors[packet->type];
+	const struct PacketProcessor * processor =
+		packet->type < n_processors ? &processors[packet->type] : NULL;
 
-	if (packet->type >= n_processors || !processor->fn) {
+	if (!processor || !processor->fn) {
 		/* packet type unknown */
 		LOG_logf(LOG_LEVEL_WARN, PFX, "Unknown packet type (type=%"
 			PRIuFAST16 ", len=%" PRIuFAST16 ")", packet->type, packet->len);
-- 
2.43.0


From ae2a97d34e993c5ce697d5ddbf8b6b933f66c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 30/62] fix: talkback: the child of an upgrade must not
 continue as a second daemon

---
 src/radarcape/tb-misc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/radarcape/tb-misc.c b/src/radarcape/tb-misc.c
index 617cd8d..5b77ea1 100644
--- a/src/radarcape/tb-misc.c
+++ b/src/radarcape/tb-misc.c
@@ -6,6 +6,7 @@
 #include <stdbool.h>
 #include <inttypes.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include "tb-misc.h"
 #include "fpga.h"
 #include "util/proc.h"
@@ -70,6 +71,8 @@ void TB_upgradeDaemon(const uint8_t * payload)
 		PROC_execAndFinalize(argv2);
 #endif
 	}
+	/* never return into the daemon */
+	_Exit(EXIT_FAILURE);
 }
 #endif
 
-- 
2.43.0


From ac2974b9a665a51f8953fe46dc0ebf7154fd9e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 31/62] fix: proc: report failure if forking or waiting fails

---
 src/util/proc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index 70e107c..879e04b 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -12,6 +12,7 @@
 #include <sys/stat.h>
 #include <sys/wait.h>
 #include <stdio.h>
+#include <errno.h>
 #include "proc.h"
 #include "log.h"
 
@@ -132,10 +133,17 @@ void PROC_forkAndExec(char * const argv[])
 bool PROC_execAndReturn(char * const argv[])
 {
 	pid_t pid = fork();
+	if (pid == -1) {
+		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
+		return false;
+	}
 	if (!pid)
 		PROC_execAndFinalize(argv);
 
 	int status;
-	waitpid(pid, &status, 0);
+	pid_t rc;
+	do rc = waitpid(pid, &status, 0); while (rc == -1 && errno == EINTR);
+	if (rc == -1)
+		return false;
 	return WIFEXITED(status) && WEXITSTATUS(status) == 0;
 }
-- 
2.43.0


From a151185f0a8d168951950c643e04d81b185b6669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 32/62] fix: log: a child forked while another thread is
 logging must not deadlock

---
 src/util/log_stdio.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/util/log_stdio.c b/src/util/log_stdio.c
index cec84c1..49802ac 100644
--- a/src/util/log_stdio.c
+++ b/src/util/log_stdio.c
@@ -26,6 +26,19 @@ static const char * levelNames[] = {
 /** Mutex: only one thread can log to stdout */
 static pthread_mutex_t stdioMutex = PTHREAD_MUTEX_INITIALIZER;
 
+#ifdef HAVE_FORK
+static void lockLog() { pthread_mutex_lock(&stdioMutex); }
+static void unlockLog() { pthread_mutex_unlock(&stdioMutex); }
+
+/** A child which is forked while another thread is logging must still be able
+ * to log. */
+__attribute__((constructor))
+static void registerAtFork()
+{
+	pthread_atfork(&lockLog, &unlockLog, &unlockLog);
+}
+#endif
+
 /** Print log message with printf-like formatting.
  * @param level Log level. If it is LOG_LEVEL_EMERG, the function will abort
  *  the process.
-- 
2.43.0


From 4809638a626e31b0a47e0d5db73c1acff04d90c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 33/62] fix: proc: terminate the logged command line if its
 last argument is cut

---
 src/util/proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index 879e04b..07badb0 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -35,7 +35,7 @@ static void printCmdLine(char * const argv[])
 		ptr[-1] = ' ';
 		ptr = memccpy(ptr, *arg, '\0', end - ptr);
 	}
-	if (*arg && (!ptr || ptr == end))
+	if (!ptr || (*arg && ptr == end))
 		strcpy(&end[-4], "...");
 
 	LOG_logf(LOG_LEVEL_INFO, PFX, "Executing%s", buf);
-- 
2.43.0


From a587d6a8ab5fb2e32f3682292bf3c5cd5a2e75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 34/62] fix: fpga: long bitstream file names must not overflow
 the path buffer

---
 src/radarcape/fpga.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index f677ea1..ce1522f 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -12,6 +12,7 @@
 #include <inttypes.h>
 #include <stdint.h>
 #include <stdbool.h>
+#include <stdio.h>
 #include <limits.h>
 #include <string.h>
 #include <assert.h>
@@ -166,12 +167,15 @@ static bool program()
 	char file[PATH_MAX];
 
 	struct stat st;
-	if (cfgFilename[0] == '/' && stat(cfgFilename, &st) == 0) {
-		strncpy(file, cfgFilename, sizeof file);
-	} else {
-		strncpy(file, FWDIR, sizeof file);
-		strncat(file, "/", strlen(file) - sizeof file);
-		strncat(file, cfgFilename, strlen(file) - sizeof file);
+	int len;
+	if (cfgFilename[0] == '/' && stat(cfgFilename, &st) == 0)
+		len = snprintf(file, sizeof file, "%s", cfgFilename);
+	else
+		len = snprintf(file, sizeof file, "%s/%s", FWDIR, cfgFilename);
+	if (len < 0 || (size_t)len >= sizeof file) {
+		LOG_logf(LOG_LEVEL_ERROR, PFX, "file name '%s' is too long",
+			cfgFilename);
+		return false;
 	}
 
 	/* open input file */
-- 
2.43.0


From 352365e6bd513f142fab8acbdc28f93e5f44a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 35/62] fix: fpga: wait for CONF_DONE to become set instead of
 cleared

---
 src/radarcape/fpga.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index ce1522f..bd02c60 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -216,7 +216,7 @@ static bool program()
 			continue;
 
 		uint32_t spin = TIMEOUT;
-		while (GPIO_read(fpga->confd) && spin--)
+		while (!GPIO_read(fpga->confd) && spin--)
 			usleep(50);
 		if (!GPIO_read(fpga->confd)) {
 			LOG_log(LOG_LEVEL_WARN, PFX, "could not program: CONF_DONE = 0"
-- 
2.43.0


From b06d8f017f9cfcb6fb2d1638ab7290fe26e1a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 36/62] fix: fpga: unmap the bitstream if programming failed

---
 src/radarcape/fpga.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index bd02c60..fce5e6f 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -224,11 +224,10 @@ static bool program()
 			continue;
 		}
 
-		munmap(rfd, st.st_size);
-
 		LOG_log(LOG_LEVEL_INFO, PFX, "done");
 		break;
 	}
+	munmap(rfd, st.st_size);
 	if (try == retries) {
 		LOG_logf(LOG_LEVEL_ERROR, PFX, "could not program fpga after %" PRIu32
 			" attempts", retries);
-- 
2.43.0


From 5aebf791dd77731e6f3d3b330991ae6211fce22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 37/62] fix: gpio: pin 31 of a controller must not overflow a
 signed shift

---
 src/radarcape/gpio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/gpio.c b/src/radarcape/gpio.c
index c273260..0e665c7 100644
--- a/src/radarcape/gpio.c
+++ b/src/radarcape/gpio.c
@@ -186,5 +186,5 @@ static inline struct Controller * getController(uint_fast32_t gpio)
  */
 static inline uint_fast32_t getBit(uint_fast32_t gpio)
 {
-	return 1 << (gpio & 31);
+	return UINT32_C(1) << (gpio & 31);
 }
-- 
2.43.0


From 030f99b10cfa04e13c1d3ff6d0c2a982b1c0da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 38/62] fix: component: do not join a deferred thread twice

---
 src/util/component.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/component.c b/src/util/component.c
index 7094aba..8de55da 100644
--- a/src/util/component.c
+++ b/src/util/component.c
@@ -413,8 +413,9 @@ static bool stopThreaded(const struct ComponentLink * ci, bool deferred)
 					"joined", ci->comp->description);
 			return false;
 		}
-#endif
+#else
 		pthread_join(ci->thread, NULL);
+#endif
 	} else {
 		pthread_cancel(ci->thread);
 #if HAVE_PTHREAD_TIMEDJOIN_NP
-- 
2.43.0


From 6834cecc47b51c4c1f34480c9f5539ce13d7f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 39/62] fix: component: many components which cannot be stopped
 must not overflow the message

---
 src/util/component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/component.c b/src/util/component.c
index 8de55da..13e0957 100644
--- a/src/util/component.c
+++ b/src/util/component.c
@@ -339,7 +339,7 @@ static void stopUntil(struct ComponentLink * end)
 		char * const bend = buffer + sizeof(buffer) - 1;
 		ci = end;
 		LIST_foreachItemRev_continue(&components, ci, list) {
-			if (ci->state == COMPONENT_STATE_STARTED) {
+			if (ci->state == COMPONENT_STATE_STARTED && buf < bend) {
 				size_t len = MIN(strlen(ci->comp->description), bend - buf);
 				memcpy(buf, ci->comp->description, len);
 				buf += len;
-- 
2.43.0


From 63bb639c27cdf336fd57a2838cf0eb920bc0d911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 40/62] fix: statistics: no bogus rates after the counters were
 reset

---
 src/util/statistics.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/util/statistics.c b/src/util/statistics.c
index da5770a..0accf6b 100644
--- a/src/util/statistics.c
+++ b/src/util/statistics.c
@@ -95,6 +95,16 @@ static void mainloop()
 	}
 }
 
+/** Get the increase of a counter since the last snapshot.
+ * @param cur current value
+ * @param last value of last snapshot
+ * @return increase, or the current value if the counter was reset meanwhile
+ */
+static inline uint64_t increase(uint64_t cur, uint64_t last)
+{
+	return cur >= last ? cur - last : cur;
+}
+
 static inline void printFrames2(const char * name,
 	const struct Snapshot * snapshot, uint64_t frames, uint64_t lastFrames)
 {
@@ -103,7 +113,7 @@ static inline void printFrames2(const char * name,
 		(double)frames / snapshot->secs);
 	if (snapshot->delta) {
 		printf(", %.02f /s)\n",
-			(double)(frames - lastFrames) / snapshot->delta);
+			(double)increase(frames, lastFrames) / snapshot->delta);
 	} else {
 		puts(")");
 	}
@@ -124,7 +134,7 @@ static inline void printSubFrames(uint_fast32_t type,
 			(double)n / snapshot->secs);
 		if (snapshot->delta) {
 			printf(", %.02f /s)\n",
-				(double)(n - lastSnapshot->filter.modeSByType[type])
+				(double)increase(n, lastSnapshot->filter.modeSByType[type])
 					/ snapshot->delta);
 		} else {
 			puts(")");
@@ -171,7 +181,8 @@ static void printStatistics(struct Snapshot * lastSnapshot)
 			snapshot.frames, (double)snapshot.frames / snapshot.secs);
 	if (snapshot.delta) {
 		printf(", %.02f /s)\n",
-			(double)(snapshot.frames - lastSnapshot->frames) / snapshot.delta);
+			(double)increase(snapshot.frames, lastSnapshot->frames)
+				/ snapshot.delta);
 	} else {
 		puts(")");
 	}
-- 
2.43.0


From 7d502438484177479b02151c2c7317970a1f2983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 41/62] fix: network: resetting the statistics also restarts
 the time online

---
 src/core/network.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/network.c b/src/core/network.c
index 6df877a..8fb6005 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -436,6 +436,7 @@ static void resetStats()
 {
 	pthread_mutex_lock(&mutex);
 	memset(&stats, 0, sizeof stats);
+	onlineSince = time(NULL);
 	pthread_mutex_unlock(&mutex);
 }
 
-- 
2.43.0


From 2b59788ee0c3617e74ae8df08b328cecb16f7579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 42/62] fix: recv, relay: the cleanup routines must see the
 current frame

---
 src/core/recv.c  | 5 +++--
 src/core/relay.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/recv.c b/src/core/recv.c
index 8ac86f6..eef0efa 100644
--- a/src/core/recv.c
+++ b/src/core/recv.c
@@ -25,7 +25,7 @@ const struct Component RECV_comp = {
  * @param frame pointer to current pointer to frame. Must be done this way,
  *  since the argument is always the initial value.
  */
-static void cleanup(struct OPENSKY_RawFrame ** frame)
+static void cleanup(struct OPENSKY_RawFrame * volatile * frame)
 {
 	if (*frame)
 		BUF_abortFrame(*frame);
@@ -40,7 +40,8 @@ static void cleanupInput()
 /** Main loop: get a frame from the pool, fill it and buffer it */
 static void mainloop()
 {
-	struct OPENSKY_RawFrame * frame = NULL;
+	/* volatile: the cleanup routine needs the value upon cancellation */
+	struct OPENSKY_RawFrame * volatile frame = NULL;
 	struct OPENSKY_DecodedFrame decoded;
 
 	CLEANUP_PUSH(&cleanup, &frame);
diff --git a/src/core/relay.c b/src/core/relay.c
index 515440f..c98c990 100644
--- a/src/core/relay.c
+++ b/src/core/relay.c
@@ -45,7 +45,7 @@ const struct Component RELAY_comp = {
 /** Cleanup routine: put a frame back into the queue upon cancellation
  * @param frame pointer to frame
  */
-static void cleanup(struct OPENSKY_RawFrame ** frame)
+static void cleanup(const struct OPENSKY_RawFrame * volatile * frame)
 {
 	if (*frame)
 		BUF_putFrame(*frame);
@@ -88,7 +88,8 @@ static void mainloop()
 		BUF_flushUnlessHistoryEnabled();
 
 		bool success;
-		const struct OPENSKY_RawFrame * frame = NULL;
+		/* volatile: the cleanup routine needs the value upon cancellation */
+		const struct OPENSKY_RawFrame * volatile frame = NULL;
 		CLEANUP_PUSH(&cleanup, &frame);
 		do {
 			/* read a frame from the buffer */
-- 
2.43.0


From 6164e39c44db42add5df04d72760ffb60174b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 43/62] fix: network: the descriptors are read without holding
 the mutex

A second sender, or a sender and the receiver while the feeder is being
stopped, look at sendsock resp. recvsock while the network thread changes
them.
---
 src/core/network.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index 8fb6005..0d8395f 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -29,9 +29,9 @@ static const char PFX[] = "NET";
 #define RECONNET_INTERVAL 10
 
 /** Networking socket: receiving socket */
-static sock_t recvsock = SOCK_INVALID;
+static _Atomic(sock_t) recvsock = SOCK_INVALID;
 /** Networking socket: sending socket */
-static sock_t sendsock = SOCK_INVALID;
+static _Atomic(sock_t) sendsock = SOCK_INVALID;
 
 /** Mutex for all shared variables */
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
@@ -262,7 +262,7 @@ static enum ACTION emitDisconnect(enum EMIT_BY by)
 	CLEANUP_PUSH_LOCK(&mutex);
 
 	/* determine socket */
-	sock_t * mysock;
+	_Atomic(sock_t) * mysock;
 	sock_t othsock;
 	if (by == EMIT_BY_RECV) {
 		mysock = &recvsock;
-- 
2.43.0


From 7d6438929cee7d628e0ac3ec67a34c4ce0f8db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:00 +0000
Subject: [PATCH 44/62] fix: serial number from the hardware address leaked a
 socket per attempt

---
 src/util/serial_eth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/serial_eth.c b/src/util/serial_eth.c
index ad8006c..58448dc 100644
--- a/src/util/serial_eth.c
+++ b/src/util/serial_eth.c
@@ -75,6 +75,8 @@ static bool getMacBySocket(const char * dev, uint8_t mac[IFHWADDRLEN])
 
 	int ret = NOC_call(ioctl, sock, SIOCGIFHWADDR, &ifr);
 
+	NOC_call(close, sock);
+
 	if (ret < 0) /* no such device */
 		return false;
 
-- 
2.43.0


From bf517ee8ae0de36db85f719ef7ebbef40e55e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:00 +0000
Subject: [PATCH 45/62] fix: dump1090: an assigned serial number is never
 replaced and always stored before use

---
 src/dump1090/req-serial.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/dump1090/req-serial.c b/src/dump1090/req-serial.c
index be27808..25d02d4 100644
--- a/src/dump1090/req-serial.c
+++ b/src/dump1090/req-serial.c
@@ -38,6 +38,8 @@ static pthread_cond_t serialReqCond = PTHREAD_COND_INITIALIZER;
 static bool hasSerial;
 /** Configuration: serial number */
 static uint32_t serialNumber;
+/** Serial number was assigned by OpenSky but is not yet saved */
+static bool unsaved;
 
 /** Configuration Descriptor */
 static const struct CFG_Section cfgDesc =
@@ -117,14 +119,19 @@ enum SERIAL_RETURN SERIAL_getSerial(uint32_t * serial)
 			}
 		}
 
+	}
+
+	if (unsaved) {
 		LOG_logf(LOG_LEVEL_INFO, PFX, "Got a new serial number: %" PRId32,
 			(int32_t)serialNumber);
 
 		/* got a new serial number -> save it */
-		if (!CFG_writeSection(LOCALSTATEDIR "/conf.d/05-serial.conf", &cfgDesc)) {
+		if (!NOC_call(CFG_writeSection, LOCALSTATEDIR
+			"/conf.d/05-serial.conf", &cfgDesc)) {
 			LOG_log(LOG_LEVEL_EMERG, PFX, "Could not write serial number, "
 				"refusing to work");
 		}
+		unsaved = false;
 	}
 	*serial = serialNumber;
 cleanup:
@@ -149,9 +156,12 @@ static bool sendSerialRequest()
 static void serialResponse(const uint8_t * payload)
 {
 	pthread_mutex_lock(&serialMutex);
-	serialNumber = ENDEC_tou32(payload);
-	hasSerial = true;
-	pthread_cond_broadcast(&serialReqCond);
+	if (!hasSerial) {
+		/* note: the response could arrive when nobody is waiting any more */
+		serialNumber = ENDEC_tou32(payload);
+		hasSerial = unsaved = true;
+		pthread_cond_broadcast(&serialReqCond);
+	}
 	pthread_mutex_unlock(&serialMutex);
 }
 
-- 
2.43.0


From 2520c7f37ea24913e52aa3a5a4bcbe8b80bd03f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:00 +0000
Subject: [PATCH 46/62] fix: dump1090: user names of the maximal length are
 accepted

---
 src/dump1090/dump1090.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump1090/dump1090.c b/src/dump1090/dump1090.c
index e48ef3c..fd5c568 100644
--- a/src/dump1090/dump1090.c
+++ b/src/dump1090/dump1090.c
@@ -63,7 +63,7 @@ static struct CFG_Section cfgDesc =
 			.name = "Username",
 			.type = CFG_VALUE_TYPE_STRING,
 			.var = &username,
-			.maxlen = OPENSKY_MAX_USERNAME,
+			.maxlen = sizeof username,
 		}
 	}
 };
-- 
2.43.0


From 099406e63c543fde5d762a90dcd9a1f98ca38ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:00 +0000
Subject: [PATCH 47/62] fix: radarcape: a missing serial number was taken as
 configured

---
 src/radarcape/lib/opensky.cc | 2 +-
 src/radarcape/main.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/lib/opensky.cc b/src/radarcape/lib/opensky.cc
index f048306..d2cfc56 100644
--- a/src/radarcape/lib/opensky.cc
+++ b/src/radarcape/lib/opensky.cc
@@ -83,7 +83,7 @@ void init()
 
 void configure()
 {
-	if (!SERIAL_ETH_getSerial(NULL)) {
+	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_PERM) {
 		LOG_log(LOG_LEVEL_EMERG, PFX, "No serial number configured");
 	} else {
 		configured = true;
diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index f166c91..4a96cb1 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -151,7 +151,7 @@ int main(int argc, char * argv[])
 		return EXIT_SUCCESS;
 	}
 
-	if (!SERIAL_ETH_getSerial(NULL))
+	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_PERM)
 			LOG_log(LOG_LEVEL_EMERG, PFX, "No serial number configured");
 
 #ifdef STANDALONE
-- 
2.43.0


From ad777e2314570650cf804ff61f14a6766d7521e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:00 +0000
Subject: [PATCH 48/62] fix: radarcape: failure to save the configuration is
 reported by the exit status

---
 src/radarcape/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index 4a96cb1..0993e5b 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -145,10 +145,10 @@ int main(int argc, char * argv[])
 	if (savefile) {
 		LOG_logf(LOG_LEVEL_INFO, PFX, "Writing configuration file '%s'",
 			savefile);
-		CFG_write(savefile);
+		bool written = CFG_write(savefile);
 		COMP_unregisterAll();
 		CFG_unregisterAll();
-		return EXIT_SUCCESS;
+		return written ? EXIT_SUCCESS : EXIT_FAILURE;
 	}
 
 	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_PERM)
-- 
2.43.0


From 465d29fd4073df04e8e305f00462d3faa7069f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 49/62] fix: gps: a reset must not forget that the server needs
 a position

---
 src/core/gps.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/gps.c b/src/core/gps.c
index 40c79ba..8868049 100644
--- a/src/core/gps.c
+++ b/src/core/gps.c
@@ -36,11 +36,12 @@ static void sendPositionIfAvail();
 
 static bool sendPosition(const struct GPS_Position * position);
 
-/** Reset current GPS position */
+/** Reset current GPS position
+ * @note whether a position is needed is not affected: the next valid position
+ *  is sent then */
 void GPS_reset()
 {
 	pthread_mutex_lock(&posMutex);
-	needPosition = false;
 	hasPosition = false;
 	hasFix = false;
 	pthread_mutex_unlock(&posMutex);
-- 
2.43.0


From 2705e8588e8d9fb504e0d893652edbde18809450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:42 +0000
Subject: [PATCH 50/62] fix: network: only the thread which logs in reports the
 failure of a connection

A deferred position sent by the GPS thread could take note of a lost connection
in place of the relay, which then went on sending frames on the next connection
without logging in, or it could be sent before the login of that connection.
---
 src/core/gps.c     |  2 ++
 src/core/login.c   |  4 ++++
 src/core/network.c | 24 +++++++++++++++++++++---
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/core/gps.c b/src/core/gps.c
index 8868049..3e44a4c 100644
--- a/src/core/gps.c
+++ b/src/core/gps.c
@@ -50,7 +50,9 @@ void GPS_reset()
 /** Reset flag whether position is needed */
 void GPS_resetNeedFlag()
 {
+	pthread_mutex_lock(&posMutex);
 	needPosition = false;
+	pthread_mutex_unlock(&posMutex);
 }
 
 /** Update current GPS position and fix */
diff --git a/src/core/login.c b/src/core/login.c
index ea81b0d..26971ec 100644
--- a/src/core/login.c
+++ b/src/core/login.c
@@ -45,6 +45,10 @@ static bool sendUsername();
  */
 bool LOGIN_login()
 {
+	/* a position needed by a previous connection must not be sent before the
+	 * login is complete or in addition to the one sent here */
+	GPS_resetNeedFlag();
+
 	/* send device id, serial number, username and the position */
 	bool rc = sendDeviceId() && sendSerial() && GPS_sendPosition() &&
 		sendUsername();
diff --git a/src/core/network.c b/src/core/network.c
index 0d8395f..06cca15 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -40,6 +40,14 @@ static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
 /** Mutex for exclusive sending */
 static pthread_mutex_t sendMutex = PTHREAD_MUTEX_INITIALIZER;
 
+/** Flag: the current thread synchronizes with the connection, i.e. it waits for
+ * a connection. The failure of a connection is reported to that thread only:
+ * others may send data, but must leave it to that thread to see a failure. */
+static _Thread_local bool synchronizing;
+/** Flag: the synchronizing sender has started to use the sending socket. Others
+ * must not send anything before. */
+static _Atomic(bool) opened;
+
 /** Connection status */
 enum CONN_STATE {
 	/** Disconnected */
@@ -185,6 +193,7 @@ static void cleanupMain()
 	else if (transState == TRANSIT_RECV)
 		SOCK_close(recvsock);
 	recvsock = sendsock = SOCK_INVALID;
+	opened = false;
 	transState = TRANSIT_NONE;
 	connState = CONN_STATE_SHUTDOWN;
 	pthread_mutex_unlock(&mutex);
@@ -270,6 +279,7 @@ static enum ACTION emitDisconnect(enum EMIT_BY by)
 	} else {
 		mysock = &sendsock;
 		othsock = recvsock;
+		opened = false;
 	}
 
 #ifdef DEBUG
@@ -329,6 +339,7 @@ static enum ACTION emitDisconnect(enum EMIT_BY by)
 /** Wait for reconnection */
 void NET_waitConnected()
 {
+	synchronizing = true;
 	CLEANUP_PUSH_LOCK(&mutex);
 	while (connState != CONN_STATE_CONNECTED)
 		pthread_cond_wait(&cond, &mutex);
@@ -373,7 +384,7 @@ static bool trySend(const void * buf, size_t len)
 
 	/* if we are not connected, the failure is already known. Reporting it
 	 * could hit the next connection */
-	if (sendsock == SOCK_INVALID)
+	if (sendsock == SOCK_INVALID || !(synchronizing || opened))
 		return false;
 
 	do {
@@ -385,18 +396,25 @@ static bool trySend(const void * buf, size_t len)
 				rc == 0 || errno == EPIPE ? "Connection lost" :
 				strerror(errno));
 #endif
-			emitDisconnect(EMIT_BY_SEND);
+			if (synchronizing)
+				emitDisconnect(EMIT_BY_SEND);
+			else
+				SOCK_shutdown(sendsock, SHUT_RDWR);
 			return false;
 		}
 		ptr += rc;
 	} while (ptr != end);
 
+	if (synchronizing)
+		opened = true;
+
 	stats.bytesSent += len;
 
 	return true;
 }
 
-/** Send some data through the socket.
+/** Send some data through the socket. Threads which do not synchronize with the
+ * connection (see @NET_waitConnected) can only send after the one which does.
  * @param buf buffer to be sent
  * @param len length of buffer
  * @return true if sending succeeded, false on network failure
-- 
2.43.0


From 28d5223422a0715fe6d1e70f9289e7652a7dca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:10 +0000
Subject: [PATCH 51/62] fix: open the serial lines with the flags, not with
 flags in place of the mode

---
 src/radarcape/uart.c             | 2 +-
 src/trimble/trimble_input_uart.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 75b2b74..7b40940 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -74,7 +74,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
diff --git a/src/trimble/trimble_input_uart.c b/src/trimble/trimble_input_uart.c
index 60044d4..feb36b8 100644
--- a/src/trimble/trimble_input_uart.c
+++ b/src/trimble/trimble_input_uart.c
@@ -78,7 +78,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
-- 
2.43.0


From a0d0fc8da7166eacf73225a5cb5ed58b0ed183ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:26 +0000
Subject: [PATCH 52/62] fix: report a serial line which hung up instead of
 reading from it in a busy loop

---
 src/radarcape/uart.c             | 8 +++++++-
 src/trimble/trimble_input_uart.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 7b40940..0a66dad 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -127,7 +127,13 @@ size_t RC_INPUT_read(uint8_t * buf, size_t bufLen)
 				return 0;
 			}
 		} else if (unlikely(rc == 0)) {
-			poll(&fds, 1, -1);
+			/* no data, or no line any more */
+			if (poll(&fds, 1, -1) > 0 &&
+				(fds.revents & (POLLHUP | POLLERR | POLLNVAL))) {
+				LOG_log(LOG_LEVEL_WARN, PFX, "UART hung up");
+				closeUart();
+				return 0;
+			}
 		} else {
 			return rc;
 		}
diff --git a/src/trimble/trimble_input_uart.c b/src/trimble/trimble_input_uart.c
index feb36b8..ffb7560 100644
--- a/src/trimble/trimble_input_uart.c
+++ b/src/trimble/trimble_input_uart.c
@@ -147,7 +147,13 @@ size_t TRIMBLE_INPUT_read(uint8_t * buf, size_t bufLen)
 				return 0;
 			}
 		} else if (unlikely(rc == 0)) {
-			poll(&fds, 1, -1);
+			/* no data, or no line any more */
+			if (poll(&fds, 1, -1) > 0 &&
+				(fds.revents & (POLLHUP | POLLERR | POLLNVAL))) {
+				LOG_log(LOG_LEVEL_WARN, PFX, "UART hung up");
+				closeUart();
+				return 0;
+			}
 		} else {
 			return rc;
 		}
-- 
2.43.0


From 71c60f24ae72efc7bf75b353f2090e16e93b3585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:06 +0000
Subject: [PATCH 53/62] fix: set the receiver's frame filter safely while the
 serial line is closed, opened or configured

---
 src/radarcape/rc-parser.c | 26 ++++++++++++++++++++------
 src/radarcape/uart.c      | 14 +++++++++++++-
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/radarcape/rc-parser.c b/src/radarcape/rc-parser.c
index d881574..60c2387 100644
--- a/src/radarcape/rc-parser.c
+++ b/src/radarcape/rc-parser.c
@@ -123,6 +123,7 @@ static inline bool discardAndFill();
 static inline bool next(uint8_t * ch);
 static inline bool synchronize();
 static inline bool setOption(enum RADARCAPE_OPTION option);
+static bool setFrameFilter();
 static inline enum DECODE_STATUS decode(uint8_t * buf, size_t len,
 	struct OPENSKY_RawFrame * raw);
 static void resetStats();
@@ -155,9 +156,7 @@ static bool configure()
 	const struct FILTER_Configuration * filterCfg = FILTER_getConfiguration();
 	/* setup ADSB */
 	return setOption(RADARCAPE_OPTION_OUTPUT_FORMAT_BIN) &&
-		setOption(filterCfg->extSquitter ?
-			RADARCAPE_OPTION_FRAME_FILTER_DF_11_17_18_ONLY :
-			RADARCAPE_OPTION_FRAME_FILTER_ALL) &&
+		setFrameFilter() &&
 		setOption(RADARCAPE_OPTION_AVR_FORMAT_MLAT) &&
 		setOption(filterCfg->crc ?
 			RADARCAPE_OPTION_DF_11_17_18_CRC_ENABLED :
@@ -178,11 +177,26 @@ static bool configure()
 void INPUT_reconfigure()
 {
 #ifdef INPUT_RADARCAPE_UART
-	const struct FILTER_Configuration * filterCfg = FILTER_getConfiguration();
-	setOption(filterCfg->extSquitter ?
+	setFrameFilter();
+#endif
+}
+
+/** Set the frame filter of the ADSB decoder from the filter configuration.
+ * @return true if option could be set successfully
+ * @note the configuration may be changed by another thread at any time, but
+ *  the setting which is read last is the one written last
+ */
+__attribute__((unused))
+static bool setFrameFilter()
+{
+	static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
+	bool ret;
+	CLEANUP_PUSH_LOCK(&mutex);
+	ret = setOption(FILTER_getConfiguration()->extSquitter ?
 		RADARCAPE_OPTION_FRAME_FILTER_DF_11_17_18_ONLY :
 		RADARCAPE_OPTION_FRAME_FILTER_ALL);
-#endif
+	CLEANUP_POP();
+	return ret;
 }
 
 /** Set an option for the ADSB decoder.
diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 0a66dad..02a7203 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -10,6 +10,7 @@
 #include <termios.h>
 #include <unistd.h>
 #include <errno.h>
+#include <pthread.h>
 #include <stdbool.h>
 #include "rc-input.h"
 #include "util/cfgfile.h"
@@ -27,6 +28,9 @@ static const char PFX[] = "INPUT";
 
 /** file descriptor for UART */
 static int fd;
+/** protects the file descriptor: the filter may be changed by another thread
+ * (i.e. there is a write) while the UART is closed or opened */
+static pthread_mutex_t fdMutex = PTHREAD_MUTEX_INITIALIZER;
 /** poll set when waiting for data */
 static struct pollfd fds;
 
@@ -47,10 +51,12 @@ void RC_INPUT_init()
 /** Close connection */
 static void closeUart()
 {
+	CLEANUP_PUSH_LOCK(&fdMutex);
 	if (fd != -1) {
 		close(fd);
 		fd = -1;
 	}
+	CLEANUP_POP();
 }
 
 /** Disconnect Radarcape input */
@@ -74,7 +80,9 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
+	CLEANUP_PUSH_LOCK(&fdMutex);
 	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	CLEANUP_POP();
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
@@ -147,7 +155,11 @@ size_t RC_INPUT_read(uint8_t * buf, size_t bufLen)
  */
 size_t RC_INPUT_write(uint8_t * buf, size_t bufLen)
 {
-	ssize_t rc = write(fd, buf, bufLen);
+	ssize_t rc = 0;
+	CLEANUP_PUSH_LOCK(&fdMutex);
+	if (fd != -1)
+		rc = write(fd, buf, bufLen);
+	CLEANUP_POP();
 	if (unlikely(rc <= 0))
 		return 0;
 	return rc;
-- 
2.43.0


From 0a4437baca369b05157b8b915b2a15bc6ebb4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:12 +0000
Subject: [PATCH 54/62] fix: initialize the last byte of the frames of the
 simulated receiver

---
 src/radarcape/dummy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/dummy.c b/src/radarcape/dummy.c
index 4761e89..ffa0b91 100644
--- a/src/radarcape/dummy.c
+++ b/src/radarcape/dummy.c
@@ -86,7 +86,7 @@ size_t RC_INPUT_read(uint8_t * buf, size_t bufLen)
 		mbuf[0] = (random() & 0xff) - 0x7f;
 		mbuf[1] = 0x8a;
 		uint_fast32_t i;
-		for (i = 2; i < 14; ++i)
+		for (i = 2; i < sizeof mbuf; ++i)
 			mbuf[i] = random() & 0xff;
 	}
 	ptr += BEAST_encode(ptr, mbuf, 15);
-- 
2.43.0


From 373c0126b8b8425c2014bf828f1069f106a3aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:54 +0000
Subject: [PATCH 55/62] fix: watchdog daemon: do not continue without the
 hardware

---
 src/radarcape/wd-main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/radarcape/wd-main.c b/src/radarcape/wd-main.c
index 1ffd6c4..b8fbba4 100644
--- a/src/radarcape/wd-main.c
+++ b/src/radarcape/wd-main.c
@@ -34,7 +34,8 @@ int main(int argc, char * argv[])
 	}
 
 	/* initialize GPIO subsystem */
-	GPIO_comp.onConstruct(NULL);
+	if (!GPIO_comp.onConstruct(NULL))
+		return EXIT_FAILURE;
 
 	/* drop privileges */
 	UTIL_dropPrivileges();
-- 
2.43.0


From c1d6dd9341393202b916503b79828d5cf1bf5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:06 +0000
Subject: [PATCH 56/62] fix: packages: accept only serials and ports which the
 daemon reads as typed

The daemon ignores a negative serial number or one beyond 32 bit (and then
requests a new one) and reads a number with a leading zero as octal, so that
port 08080 keeps it from starting.
---
 debian/opensky-feeder-donated.config | 7 ++++---
 debian/opensky-feeder.config         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/debian/opensky-feeder-donated.config b/debian/opensky-feeder-donated.config
index 8110340..b061a18 100755
--- a/debian/opensky-feeder-donated.config
+++ b/debian/opensky-feeder-donated.config
@@ -21,7 +21,7 @@ while (1) {
 		check(critical => 'longitude', (\&notempty, \&rational, &gen_range(-180, 180))),
 		check(critical => 'altitude', (\&notempty, \&rational)),
 		check(high => 'username', (&gen_length(40))),
-		check(high => 'serial', \&integer),
+		check(high => 'serial', (\&integer, &gen_range(0, 4294967295))),
 		check(high => 'port', (\&integer, &gen_range(1, 65535))),
 		check(high => 'host'),
 	);
@@ -60,11 +60,12 @@ sub rational {
 	return 1;
 }
 
-# check if value is an integer
+# check if value is an integer as the daemon reads it (a leading zero denotes an
+# octal number there)
 sub integer {
 	my (undef, $val) = @_;
 	return 1 if $val eq '';
-	return 0 unless $val=~/^[+-]?\d+$/;
+	return 0 unless $val=~/^(0|[1-9]\d*)$/;
 	return 1;
 }
 
diff --git a/debian/opensky-feeder.config b/debian/opensky-feeder.config
index d12b890..21a1c9a 100755
--- a/debian/opensky-feeder.config
+++ b/debian/opensky-feeder.config
@@ -22,7 +22,7 @@ while (1) {
 		check(critical => 'altitude', (\&notempty, \&rational)),
 		check(high => 'dump1090branch'),
 		check(high => 'username', (&gen_length(40))),
-		check(high => 'serial', \&integer),
+		check(high => 'serial', (\&integer, &gen_range(0, 4294967295))),
 		check(high => 'port', (\&integer, &gen_range(1, 65535))),
 		check(high => 'host'),
 	);
@@ -61,11 +61,12 @@ sub rational {
 	return 1;
 }
 
-# check if value is an integer
+# check if value is an integer as the daemon reads it (a leading zero denotes an
+# octal number there)
 sub integer {
 	my (undef, $val) = @_;
 	return 1 if $val eq '';
-	return 0 unless $val=~/^[+-]?\d+$/;
+	return 0 unless $val=~/^(0|[1-9]\d*)$/;
 	return 1;
 }
 
-- 
2.43.0


From ae54ad5f44117a8bbb64959b616aca090cf3c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:26 +0000
Subject: [PATCH 57/62] fix: packages: do not ask forever if nothing can be
 asked

Without a front end (or below the priority which is shown) the configuration
script repeated its invisible questions for ever when an answer was missing
or had been preseeded with an invalid value.
---
 debian/opensky-feeder-donated.config | 9 ++++++++-
 debian/opensky-feeder.config         | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/debian/opensky-feeder-donated.config b/debian/opensky-feeder-donated.config
index b061a18..40584e5 100755
--- a/debian/opensky-feeder-donated.config
+++ b/debian/opensky-feeder-donated.config
@@ -32,10 +32,17 @@ while (1) {
 	beginblock();
 	do { input high => "openskyd/$_->{template}format" foreach (@fail) }
 		unless $first;
-	input $_->{priority} => "openskyd/$_->{template}" foreach (@fail);
+	my $asked = $first;
+	foreach (@fail) {
+		my ($rc) = input $_->{priority} => "openskyd/$_->{template}";
+		$asked = 1 if $rc != 30;
+	}
 	endblock();
 	go();
 
+	# do not repeat questions which are not displayed
+	last unless $asked;
+
 	$first = 0;
 }
 
diff --git a/debian/opensky-feeder.config b/debian/opensky-feeder.config
index 21a1c9a..06e7525 100755
--- a/debian/opensky-feeder.config
+++ b/debian/opensky-feeder.config
@@ -33,10 +33,17 @@ while (1) {
 	beginblock();
 	do { input high => "openskyd/$_->{template}format" foreach (@fail) }
 		unless $first;
-	input $_->{priority} => "openskyd/$_->{template}" foreach (@fail);
+	my $asked = $first;
+	foreach (@fail) {
+		my ($rc) = input $_->{priority} => "openskyd/$_->{template}";
+		$asked = 1 if $rc != 30;
+	}
 	endblock();
 	go();
 
+	# do not repeat questions which are not displayed
+	last unless $asked;
+
 	$first = 0;
 }
 
-- 
2.43.0


From 4b221b40d5271712cf0edbae22007c758d84dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 58/62] fix: proc: do not leave a zombie behind for each
 program started in the background

---
 src/util/proc.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index 07badb0..e51b5b9 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -113,8 +113,17 @@ static inline void escape_cgroup()
  */
 void PROC_forkAndExec(char * const argv[])
 {
-	if (!PROC_fork())
-		return; /* parent */
+	pid_t pid = fork();
+	if (pid == -1) {
+		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
+		return;
+	}
+	if (pid) {
+		/* parent: the child terminates as soon as it is daemonized, don't leave
+		 * it behind as a zombie */
+		while (waitpid(pid, NULL, 0) == -1 && errno == EINTR);
+		return;
+	}
 	/* daemonize and chdir to root */
 	if (daemon(0, 1) < 0) {
 		_Exit(EXIT_FAILURE);
-- 
2.43.0


From aa8e66988c63624e856a85bbb478674495140515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 59/62] fix: cfgfile: report errors when writing option names

---
 src/util/cfgfile.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 788acf3..21f2884 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -900,12 +900,14 @@ static bool writeOptions(FILE * file, const struct CFG_Section * section)
 		const void * val = opt->var;
 
 		if (opt->given && !*opt->given && opt->defaultEmpty) {
-			fprintf(file, "; %s = \n", opt->name);
+			if (fprintf(file, "; %s = \n", opt->name) < 0)
+				return false;
 			continue;
 		}
 
 		/* write option name */
-		fprintf(file, "%s = ", opt->name);
+		if (fprintf(file, "%s = ", opt->name) < 0)
+			return false;
 
 		/* write option value, depending on its type */
 		switch (opt->type) {
-- 
2.43.0


From 4827bfa3ac936ee867a6fa315ed4c9dd302870a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 60/62] fix: cfgfile: read directories of file systems without
 file types in entries

---
 src/util/cfgfile.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 21f2884..04e27af 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -11,6 +11,7 @@
 #include <inttypes.h>
 #include <ctype.h>
 #include <dirent.h>
+#include <sys/stat.h>
 #include <string.h>
 #include <stdio.h>
 #include <errno.h>
@@ -159,7 +160,9 @@ bool CFG_readFile(const char * file, bool warnUnknownSection,
  */
 static int filterDirectory(const struct dirent * ent)
 {
-	if (ent->d_type != DT_REG && ent->d_type != DT_LNK)
+	/* note: not all file systems report the type */
+	if (ent->d_type != DT_REG && ent->d_type != DT_LNK &&
+		ent->d_type != DT_UNKNOWN)
 		return 0;
 	char first = ent->d_name[0];
 	if (first < '0' || first > '9') /* does not begin with a number */
@@ -240,6 +243,11 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		}
 		strncpy(foffset, fname, len);
 
+		struct stat st;
+		if (namelist[n]->d_type == DT_UNKNOWN && stat(filename, &st) == 0 &&
+			!S_ISREG(st.st_mode))
+			continue;
+
 		/* read file */
 		if (!CFG_readFile(filename, warnUnknownSection, warnUnknownOption,
 			onErrorUseDefault)) {
-- 
2.43.0


From a2ede6daac9b90bfcd6476bb5a7fd1917a813ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:28 +0000
Subject: [PATCH 61/62] fix: report unknown sections with their line, not with
 the next one

---
 src/util/cfgfile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 04e27af..b28b0c7 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -399,7 +399,6 @@ static enum SECTION_STATE parseSection()
 	/* advance parser */
 	bufferInput = n == end ? end : n + 1;
 	bufferSize = end - bufferInput;
-	++bufferLine;
 
 	/* search section: check if there is at least one section with that name */
 	const struct Section * s;
@@ -409,8 +408,10 @@ static enum SECTION_STATE parseSection()
 	if (LIST_link(s, list) == LIST_end(&sections)) {
 		if (optWarnUnknownSection)
 			err(LOG_LEVEL_WARN, "Section %.*s is unknown", (int)len, buf);
+		++bufferLine;
 		return SECTION_STATE_UNKNOWN;
 	}
+	++bufferLine;
 
 	/* set section name and name length */
 	sectionName = buf;
-- 
2.43.0


From 009e91697e1e207bfc32e02d6668bc548d576f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:19 +0000
Subject: [PATCH 62/62] fix: start on kernels newer than 4.x, which describe
 the board in the device tree too

---
 openskyd-arch/openskyd-start.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openskyd-arch/openskyd-start.sh b/openskyd-arch/openskyd-start.sh
index 16e0677..2337fd2 100755
--- a/openskyd-arch/openskyd-start.sh
+++ b/openskyd-arch/openskyd-start.sh
@@ -3,7 +3,7 @@
 KERNEL=$(uname -r)
 KMAJOR=${KERNEL%%.*}
 
-if [ ${KMAJOR} -eq 4 ]; then
+if [ ${KMAJOR} -ge 4 ]; then
   COMPAT=/sys/firmware/devicetree/base/compatible
   if grep "bone-black" ${COMPAT} >/dev/null 2>&1; then
     PARAM="--black"
-- 
2.43.0

