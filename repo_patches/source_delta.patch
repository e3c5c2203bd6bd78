From 416876914604b737de0b93181d8f70428db6955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 01/74] fix: hyper_mat_copy returned NULL for every mat and
 crashed on NULL

---
 modules/core/src/c_src/hypermat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ad50eed..ca93da3 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -393,7 +393,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
  **/
 hyper_mat hyper_mat_copy(hyper_mat mat)
 {
-	if(mat!=NULL)
+	if(mat==NULL)
 		return NULL;
 
 	int samples   = mat->samples;
-- 
2.43.0


From 698b3684138fcf9b4fabca520fc7751d7a27f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 02/74] fix: hyper mat sizes were computed in int and unknown
 data types accepted

---
 modules/core/src/c_src/hypermat.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ca93da3..6e3298c 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -180,8 +180,9 @@ hyper_mat create_hyper_mat_with_data(const int samples, const int lines, const i
 	long int  memneeded = sizeof(HyperMat);
 	int elem_size = get_elemsize(data_type);
     
-	long int mat_data_size = samples * lines * bands * elem_size;
-	int wave_data_size = bands * sizeof(float);
+	hypercv_assert(elem_size > 0, "unknown data type of hyper mat");
+	long int mat_data_size = (long int)samples * lines * bands * elem_size;
+	long int wave_data_size = (long int)bands * sizeof(float);
 
 	memneeded += mat_data_size + ALLOC_BYTE_ALIGNMENT;
 	memneeded += wave_data_size + ALLOC_BYTE_ALIGNMENT;
@@ -427,7 +428,7 @@ void hyper_mat_copy_to(hyper_mat src_mat, hyper_mat dst_mat)
 	char* src_data = (char*)src_mat->data;
 	char* dst_data = (char*)dst_mat->data;
 
-	memcpy(dst_data, src_data, samples*lines*bands*elemsize);
+	memcpy(dst_data, src_data, (long int)samples*lines*bands*elemsize);
 	hyper_mat_copy_wavelength(src_mat, dst_mat);
 
 	for(int i=0;i<3;i++)
-- 
2.43.0


From 851ff405c0aaa5e52bfcfb427ceb5774ef04aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 03/74] fix: loading a cube accepted damaged headers and short
 images, overran its buffers and leaked

---
 modules/core/src/c_src/hypermat.c | 221 ++++++++++++++++++++----------
 1 file changed, 150 insertions(+), 71 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 6e3298c..4f18d23 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -34,31 +34,78 @@ int cmpstr(char temp1[],char temp2[])
 
 }
 
-// private function purpose to read wavelength from hdr file
-// default wavelength charlength < 12
-static void read_wavelength(char* w, float* wavelength, int bands)
+// private function purpose to tell if the field name in front of '=' is name
+static int hdr_field(const char* line, const char* name)
+{
+	size_t len = strlen(name);
+
+	while(*line == ' ' || *line == '\t')
+		line++;
+
+	if(strncmp(line, name, len) != 0)
+		return 0;
+
+	line += len;
+	while(*line == ' ' || *line == '\t')
+		line++;
+
+	return *line == '=';
+}
+
+// private function purpose to read a value that is enclosed in {} and may go over many lines
+static char* read_list(FILE* hdr_fp, const char* first)
 {
-	char* tmp = (char*)malloc(MAXWAVECHAR*sizeof(char));
-	for(int i=0;i<MAXWAVECHAR;i++)
-		tmp[i]=' ';
-	int t = 0;
-	int n = 0;
-	for (int i=0;i<strlen(w);i++)
+	size_t len = 0, size = MAXLINE;
+	char* list = (char*)malloc(size*sizeof(char));
+	MALLOC_FAIL_CHECK(list);
+
+	int c = (unsigned char)*first;
+	while(c != EOF)
 	{
-		if(w[i]!=','&&w[i]!='}')
-			tmp[t++] = w[i];
-		else
+		if(len + 2 > size)
 		{
-			wavelength[n++] = atof(tmp);
-			t=0;
-			for(int j=0;j<MAXWAVECHAR;j++)
-				tmp[j]=' ';
+			size = size*2;
+			char* t = (char*)realloc(list, size*sizeof(char));
+			MALLOC_FAIL_CHECK(t);
+			list = t;
 		}
-		if(w[i]=='}'||n==bands)
+		list[len++] = (char)c;
+
+		if(c == '}')
 			break;
+
+		if(*first != '\0' && *++first != '\0')
+			c = (unsigned char)*first;
+		else
+			c = fgetc(hdr_fp);
 	}
-	free(tmp);
-	tmp=NULL;
+	list[len] = '\0';
+
+	return list;
+}
+
+// private function purpose to read wavelength from hdr file
+// retval 1 if the list holds exactly one number for each band, else 0
+static int read_wavelength(char* w, float* wavelength, int bands)
+{
+	char* t = strchr(w, '{') + 1;
+	char* end = NULL;
+
+	for (int i=0;i<bands;i++)
+	{
+		wavelength[i] = strtod(t, &end);
+		if(end == t)
+			return 0;
+
+		while(*end==' '||*end=='\t'||*end=='\r'||*end=='\n')
+			end++;
+
+		if(*end != (i == bands-1 ? '}' : ','))
+			return 0;
+		t = end + 1;
+	}
+
+	return 1;
 }
 
 
@@ -78,70 +125,86 @@ static void read_wavelength(char* w, float* wavelength, int bands)
  * @param[in]  bands       image bands.
  * @param[in]  data_type   data type 1: Byte (8 bits) 2: Integer (16 bits) 3: Long integer (32 bits) 4: Floating-point (32 bits) 5: Double-precision floating-point (64 bits) 6: Complex (2x32 bits) 9: Double-precision complex (2x64 bits) 12: Unsigned integer (16 bits) 13: Unsigned long integer (32 bits) 14: Long 64-bit integer 15: Unsigned long 64-bit integer
  * @param[in]  interleave  bil bsq bip.
+ * @retval     1 if the header is complete and valid, else 0.
  **/
-static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* data_type, char* interleave, float** wavelength)
+static int readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* data_type, char* interleave, float** wavelength)
 {
 	hypercv_assert(hdr_fp != NULL, "can not open hdr file");
 
 	char line[MAXLINE];
-	char item[MAXLINE];
 
-	char it[4];
+	char it[4] = {0};
+	char* w = NULL;
 
 	int sampletemp = 0, linetemp = 0, bandtemp = 0, datatypetemp = 0;
 
 	while (fgets(line, MAXLINE, hdr_fp) != 0)
 	{   
-		sscanf(line, "%[^=]", item);
+		char* value = strchr(line, '=');
 
-		if (cmpstr(item, "samples") == 1)
-		{
-			sscanf(line, "%*[^=]=%d",&sampletemp);
-			*samples = sampletemp ;
-		}
-		else if (cmpstr(item, "lines") == 1)
-		{
-			sscanf(line, "%*[^=]=%d",&linetemp);
-			*lines = linetemp;
-		}
-		else if (cmpstr(item, "bands") == 1)
-		{
-			sscanf(line, "%*[^=]=%d", &bandtemp);
-			*bands = bandtemp;
-		}
-		else if (cmpstr(item, "data") == 1)
+		if (value == NULL)
+			continue;
+
+		while (*++value == ' ' || *value == '\t');
+
+		if (*value == '{')
 		{
-			sscanf(line, "%*[^=]=%d", &datatypetemp);
-			*data_type = datatypetemp;
+			char* list = read_list(hdr_fp, value);
+
+			if (hdr_field(line, "wavelength"))
+			{
+				free(w);
+				w = list;
+			}
+			else
+				free(list);
 		}
-		else if (cmpstr(item, "interleave") == 1)
+		else if (hdr_field(line, "samples"))
+			sampletemp = atoi(value);
+		else if (hdr_field(line, "lines"))
+			linetemp = atoi(value);
+		else if (hdr_field(line, "bands"))
+			bandtemp = atoi(value);
+		else if (hdr_field(line, "data type"))
+			datatypetemp = atoi(value);
+		else if (hdr_field(line, "interleave"))
 		{
-			sscanf(line, "%*[^=]=%c%c%c%c", &it[0],&it[1],&it[2],&it[3]);
-			for(int i=0;i<4;i++)
+			for(int i=0;i<3;i++)
 			{
-				if(it[i]!=' ')
-					*interleave++ = it[i];
+				it[i] = value[i];
+				if(value[i] >= 'A' && value[i] <= 'Z')
+					it[i] = value[i] - 'A' + 'a';
+				if(value[i] == '\0')
+					break;
 			}
 		}
-		else if (cmpstr(line,"wavelength = {")==1)
-		{	
-			char* w = (char*)malloc(MAXWAVECHAR * bandtemp*sizeof(char));
-			char* t_w = w;
+	}
 
-			while (strchr(line, '}') == NULL&&fgets(line, MAXLINE, hdr_fp) != 0)
-			{
-				for (int i = 0; i < strlen(line); i++)
-				{
-					if (line[i] != '\n')
-						*t_w++ = line[i];
-				}
-			}
-			float* wave = (float*)malloc((bandtemp)*sizeof(float));
-			read_wavelength(w, wave, bandtemp);
+	int elem_size = get_elemsize(datatypetemp);
+	int valid = ferror(hdr_fp) == 0 && sampletemp > 0 && linetemp > 0 && bandtemp > 0 && elem_size > 0
+		&& linetemp <= PTRDIFF_MAX / sampletemp / bandtemp / elem_size
+		&& (strcmp(it, "bsq") == 0 || strcmp(it, "bil") == 0 || strcmp(it, "bip") == 0);
+
+	if (valid && w != NULL)
+	{
+		float* wave = (float*)malloc(bandtemp*sizeof(float));
+		MALLOC_FAIL_CHECK(wave);
+		valid = read_wavelength(w, wave, bandtemp);
+
+		if (valid)
 			*wavelength = wave;
-			free(w); w = NULL;
-		}
+		else
+			free(wave);
 	}
+	free(w);
+
+	*samples = sampletemp;
+	*lines = linetemp;
+	*bands = bandtemp;
+	*data_type = datatypetemp;
+	memcpy(interleave, it, 4);
+
+	return valid;
 }
 
 /**
@@ -229,7 +292,7 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	hypercv_assert(hdr_path != NULL, "image path or hdr path can not be NULL");
 
 	int samples, lines, bands, data_type;
-	char* interleave = (char*)malloc(3*sizeof(char));
+	char interleave[4];
 	float* wavelength = NULL;
 
 	FILE* image_fp = NULL;
@@ -241,25 +304,41 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	if (image_fp == NULL || hdr_fp == NULL)
 	{
 		printf("can not open file\n");
+		if (image_fp != NULL)
+			fclose(image_fp);
+		if (hdr_fp != NULL)
+			fclose(hdr_fp);
+		return 0;
+	}
+
+	int valid = readhdr(hdr_fp, &samples, &lines,&bands, &data_type, interleave, &wavelength);
+	fclose(hdr_fp);
+
+	if (!valid)
+	{
+		printf("hdr file is damaged\n");
+		fclose(image_fp);
 		return 0;
 	}
-	else
-		readhdr(hdr_fp, &samples, &lines,&bands, &data_type, interleave, &wavelength);
 	
 	unsigned int elem_size = get_elemsize(data_type);
-	long int data_size = samples * lines * bands;
+	long int data_size = (long int)samples * lines * bands;
 
 	void* data = (void *)malloc(data_size * elem_size);
 	hypercv_assert(data != NULL, "malloc fail");
 	
-	fread(data, elem_size, data_size, image_fp);
+	long int read_size = fread(data, elem_size, data_size, image_fp);
 	
 	fclose(image_fp);
-	fclose(hdr_fp);
-	
-	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
 
-	free(interleave);
+	hyper_mat mat = NULL;
+	if (read_size == data_size)
+		mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
+	else
+		printf("image file is damaged\n");
+
+	free(data);
+	free(wavelength);
 	
 	return mat;
 }
-- 
2.43.0


From dfbfbb2ea60233239b99b555cc84f77084f3eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 04/74] fix: hmread_with_size accepted short images, took
 wavelengths from uninitialised memory and leaked

---
 modules/core/src/c_src/hypermat.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 4f18d23..f96bd29 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -367,16 +367,22 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 	}
 
 	int elem_size = get_elemsize(data_type);
-	long int data_size = samples * lines * bands;
+	hypercv_assert(elem_size > 0, "unknown data type of hyper mat");
+	long int data_size = (long int)samples * lines * bands;
 
 	void* data = (void *)malloc(data_size * elem_size);
+	MALLOC_FAIL_CHECK(data);
 
-	fread(data, elem_size, data_size, image_fp);
+	long int read_size = fread(data, elem_size, data_size, image_fp);
 	fclose(image_fp);
 
-	float* wavelength = (float*)malloc(bands*sizeof(float));
+	hyper_mat mat = NULL;
+	if (read_size == data_size)
+		mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, NULL);
+	else
+		printf("image file is damaged\n");
 
-	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
+	free(data);
 
 	return mat;
 }
-- 
2.43.0


From 58656f13908a949bb7fab873f89ab126b75c4542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 05/74] fix: saving a cube ignored write errors, could mix old
 and new header and data after a crash, and leaked

---
 modules/core/src/c_src/hypermat.c | 75 ++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 26 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index f96bd29..b603422 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -387,6 +387,32 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 	return mat;
 }
 
+// private function purpose to get the hdr path of an image
+static char* get_hdr_path(const char* img_path)
+{
+	const char* t = img_path;
+	int len = 0;
+
+	while (*t++ != '\0')
+	{
+		len++;
+	}
+
+	char* hdr_path = (char*)malloc((len + 5)*sizeof(char));
+	MALLOC_FAIL_CHECK(hdr_path);
+
+	for (int i = 0; i < len; i++)
+		hdr_path[i] = img_path[i];
+
+	hdr_path[len] = '.';
+	hdr_path[len + 1] = 'h';
+	hdr_path[len + 2] = 'd';
+	hdr_path[len + 3] = 'r';
+	hdr_path[len + 4] = '\0';
+
+	return hdr_path;
+}
+
 /**
  * @brief      write the hyper spectral image.
  * @param[in]  image_path  hyper spectral image path.
@@ -401,13 +427,21 @@ void hmsave(const char* image_path, hyper_mat mat)
 	int lines = mat->lines;
 	int bands = mat->bands;
 
+	// the old header must not describe the new data
+	char* hdr_path = get_hdr_path(image_path);
+	int removed = remove(hdr_path) == 0 || errno == ENOENT;
+	free(hdr_path);
+	hypercv_assert(removed, "can not replace hdr file");
+
 	FILE* image_fp;
 	image_fp = fopen(image_path, "wb");
 	hypercv_assert(image_fp != NULL, "can not open files");
-	fwrite(mat->data, elemsize, samples * lines * bands, image_fp);
-	writehdr(image_path, samples, lines, bands, mat->data_type, mat->interleave,mat->wavelength);
-	fclose(image_fp);
+	size_t data_size = (size_t)samples * lines * bands;
+	size_t write_size = fwrite(mat->data, elemsize, data_size, image_fp);
+	int close_error = fclose(image_fp);
+	hypercv_assert(write_size == data_size && close_error == 0, "can not write image file");
 
+	writehdr(image_path, samples, lines, bands, mat->data_type, mat->interleave,mat->wavelength);
 }
 
 
@@ -422,27 +456,12 @@ void hmsave(const char* image_path, hyper_mat mat)
  **/
 void writehdr(const char* img_path, int samples, int lines, int bands, int data_type, const char* interleave, float* wavelength)
 {
-	const char* t = img_path;
-	int len = 0;
-
-	while (*t++ != '\0')
-	{
-		len++;
-	}
-
-	char* hdr_path = (char*)malloc((len + 5)*sizeof(char));
-
-	for (int i = 0; i < len; i++)
-		hdr_path[i] = img_path[i];
-
-	hdr_path[len] = '.';
-	hdr_path[len + 1] = 'h';
-	hdr_path[len + 2] = 'd';
-	hdr_path[len + 3] = 'r';
-	hdr_path[len + 4] = '\0';
+	char* hdr_path = get_hdr_path(img_path);
 
 	FILE *fp;
 	fp = fopen(hdr_path, "w");
+	free(hdr_path);
+	hypercv_assert(fp != NULL, "can not open hdr file");
 
 	fputs("ENVI\n", fp);
 	fputs("samples = ", fp); fprintf(fp, "%d\n", samples);
@@ -450,25 +469,29 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 	fputs("bands = ", fp); fprintf(fp, "%d\n", bands);
 	fputs("data type = ", fp); fprintf(fp, "%d\n", data_type);
 
-	char* it = (char*)malloc(4*sizeof(char));
+	char it[4];
 	for(int i=0;i<3;i++)
 		it[i] = interleave[i];
 	it[3] = '\0';
 
-	fputs("interleave = ", fp); fprintf(fp, "%s\n", it);
-
 	if(wavelength!=NULL)
 	{
 		fputs("wavelength = { \n", fp); 
 		for(int i=0;i<bands-1;i++)
 			fprintf(fp,"%f,",wavelength[i]);
-		fprintf(fp,"%f}",wavelength[bands-1]);
+		fprintf(fp,"%f}\n",wavelength[bands-1]);
 	}
 	else 
 	{
 		fputs("wavelength = unknown \n",fp);
 	}
-	fclose(fp);
+
+	// the last field, so that a header that was cut is never taken for a complete one
+	fputs("interleave = ", fp); fprintf(fp, "%s\n", it);
+
+	int write_error = ferror(fp);
+	int close_error = fclose(fp);
+	hypercv_assert(write_error == 0 && close_error == 0, "can not write hdr file");
 }
 
 
-- 
2.43.0


From 41bb4b308fc6b255db9f48f2791f6f06bc498671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 06/74] fix: simple mat data was only cleared for one channel,
 and its owner guessed from block addresses

---
 modules/core/src/c_src/simplemat.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 869b43b..aae0122 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -29,13 +29,16 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 
 	simple_mat mat;
 
-	int memneeded = sizeof(SIMPLE_MAT);
+	// room for the aligned position of inline data is always kept, so that it can never be the address of adopted data
+	long int memneeded = sizeof(SIMPLE_MAT) + ALLOC_BYTE_ALIGNMENT;
+	long int data_size = 0;
 	int elem_size = get_elemsize(data_type);
 
 	if (data == NULL)
 	{
-		int data_size = rows * cols * elem_size * channels; 
-		memneeded += data_size + ALLOC_BYTE_ALIGNMENT;
+		hypercv_assert(elem_size > 0 && channels > 0, "unknown data type or channels of simple mat");
+		data_size = (long int)rows * cols * elem_size * channels; 
+		memneeded += data_size;
 	}
 
 	mat = (simple_mat)malloc(sizeof(char) * memneeded);
@@ -45,7 +48,7 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 	{
 		uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
 		BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
-		memset((void*)address, 0, rows * cols * elem_size);
+		memset((void*)address, 0, data_size);
 		mat -> data = (void*)address;
 	}
 	else
@@ -494,7 +497,10 @@ void delete_simple_mat(simple_mat mat)
 	if(mat == NULL)
 		return;
 
-	if((uintptr_t)mat + ALLOC_BYTE_ALIGNMENT >= (uintptr_t)mat->data)
+	uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
+	BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
+
+	if(address == (uintptr_t)mat->data)
 	{
 		free(mat);
 		mat = NULL;	
-- 
2.43.0


From bcf1ae00b59be7f83045418d6e7a958c2ee5be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 07/74] fix: smread ignored channels and accepted short files

---
 modules/core/src/c_src/simplemat.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index aae0122..a8f0f04 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -78,11 +78,14 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 	hypercv_assert(image_fp != NULL, "can not open files");
 
 	int elem_size = get_elemsize(data_type);
-	int data_size = rows * cols;
+	hypercv_assert(rows > 0 && cols > 0 && elem_size > 0 && channels > 0, "unknown size or data type of simple mat");
+	long int data_size = (long int)rows * cols * channels;
 	void* data = (void *)malloc(data_size * elem_size);
+	MALLOC_FAIL_CHECK(data);
 
-	fread(data, elem_size, data_size, image_fp);
+	long int read_size = fread(data, elem_size, data_size, image_fp);
 	fclose(image_fp);
+	hypercv_assert(read_size == data_size, "image file is damaged");
 
 	simple_mat mat;
 	mat = create_simple_mat_with_data(rows, cols, data_type, channels, data);
-- 
2.43.0


From 8a39c3ddb642212edf2ef06279a506d94c6ad773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 08/74] fix: smread_bmp trusted every header, broke 8-bit
 images and the middle row of odd heights

---
 modules/core/src/c_src/simplemat.c | 67 +++++++++++++++++-------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index a8f0f04..bd3a2e8 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -111,7 +111,7 @@ simple_mat simple_mat_copy(simple_mat mat)
 	char * src_data = (char*)mat->data;
 	char * dst_data = (char*)dst->data;
 	
-	memcpy(dst_data, src_data, rows*cols*elemsize*channels);
+	memcpy(dst_data, src_data, (long int)rows*cols*elemsize*channels);
 	
 	return dst;
 }
@@ -129,51 +129,60 @@ simple_mat smread_bmp(const char *bmpName)
 	FILE *fp = fopen(bmpName, "rb");
 	hypercv_assert(fp!=NULL, "BMP IMAGE NOT EXIST");
 
-	fseek(fp, sizeof(BmpFileHeader), SEEK_SET);
+	BmpFileHeader file_head;
 	BmpInfoHeader head;
-	fread(&head, sizeof(BmpInfoHeader), 1, fp);
- 
+	int valid = fread(&file_head, sizeof(BmpFileHeader), 1, fp) == 1
+		&& fread(&head, sizeof(BmpInfoHeader), 1, fp) == 1
+		&& file_head.bfType == 0x4D42
+		&& head.biWidth > 0 && head.biHeight > 0 && head.biCompression == 0
+		&& (head.biBitCount == 8 || head.biBitCount == 24)
+		&& head.biClrUsed <= 256 && head.biSize >= sizeof(BmpInfoHeader) && head.biSize <= 1024;
+	hypercv_assert(valid, "BMP IMAGE IS DAMAGED OR NOT SUPPORTED");
+
 	int channels   = 3;
 	int bmpWidth   = head.biWidth;
 	int bmpHeight  = head.biHeight;
 	int biBitCount = head.biBitCount;
-    int lineByte   = (bmpWidth * biBitCount / 8 + 3) / 4 * 4;
-	
+    long int lineByte   = ((long int)bmpWidth * biBitCount / 8 + 3) / 4 * 4;
+
+	RGBQUAD pColorTable[256] = {{0}};
 	if (biBitCount == 8)
 	{
-		RGBQUAD *pColorTable = (RGBQUAD *)malloc(sizeof(RGBQUAD) * 1024);
-		fread(pColorTable, sizeof(RGBQUAD), 256, fp);
+		unsigned int colors = head.biClrUsed == 0 ? 256 : head.biClrUsed;
+		valid = fseek(fp, sizeof(BmpFileHeader) + head.biSize, SEEK_SET) == 0
+			&& fread(pColorTable, sizeof(RGBQUAD), colors, fp) == colors;
 	}
+
+	valid = valid && file_head.bfOffBits >= sizeof(BmpFileHeader) + head.biSize
+		&& fseek(fp, file_head.bfOffBits, SEEK_SET) == 0;
+	hypercv_assert(valid, "BMP IMAGE IS DAMAGED OR NOT SUPPORTED");
 	
 	unsigned char* pBmpBuf = (unsigned char *)malloc(sizeof(unsigned char) * lineByte * bmpHeight);
-	fread(pBmpBuf, 1, lineByte * bmpHeight, fp);
+	MALLOC_FAIL_CHECK(pBmpBuf);
+	long int readByte = fread(pBmpBuf, 1, lineByte * bmpHeight, fp);
 	fclose(fp);
+	hypercv_assert(readByte == lineByte * bmpHeight, "BMP IMAGE IS DAMAGED");
 
-	for(int i=0;i<bmpHeight/2;i++)
-	{
-		for(int j=0;j<bmpWidth;j++)
-		{
-			for(int k=0;k<channels;k++)
-			{
-				int tmp = pBmpBuf[i*lineByte + j*channels + k];
-				pBmpBuf[i*lineByte + j*channels + k] = pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k];
-				pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k] = tmp;
-			}
-		}
-	}
-	
 	simple_mat res = create_simple_mat(bmpHeight,bmpWidth,1,3);
 	unsigned char* res_data = (unsigned char*)res->data;
 
-	if(lineByte == bmpWidth * biBitCount / 8)
-		memcpy(res_data, pBmpBuf, lineByte*bmpHeight);
-	else
+	for(int i=0; i<bmpHeight; i++)
 	{
-		for(int i=0; i<bmpHeight; i++)
+		unsigned char* pres = res_data + (long int)i*bmpWidth*channels;
+		unsigned char* pbmp = pBmpBuf + (bmpHeight-i-1)*lineByte;
+		for(int j=0; j<bmpWidth; j++)
 		{
-			unsigned char* pres = res_data + i*bmpWidth*channels;
-			unsigned char* pbmp = pBmpBuf + i*lineByte;
-			memcpy(pres, pbmp, bmpWidth*channels);
+			if (biBitCount == 8)
+			{
+				pres[j*channels + 0] = pColorTable[pbmp[j]].rgbRed;
+				pres[j*channels + 1] = pColorTable[pbmp[j]].rgbGreen;
+				pres[j*channels + 2] = pColorTable[pbmp[j]].rgbBlue;
+			}
+			else
+			{
+				for(int k=0; k<channels; k++)
+					pres[j*channels + k] = pbmp[j*channels + 2-k];
+			}
 		}
 	}
 
-- 
2.43.0


From 1d03e870cdb9507a3a244735dbf12713ffb1d108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 09/74] fix: smwrite_bmp turned its source upside down, did not
 convert the middle row and ignored write errors

---
 modules/core/src/c_src/simplemat.c | 44 ++++++++++++------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index bd3a2e8..381c448 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -200,6 +200,7 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 	hypercv_assert(bmpName != NULL, "write bmp image path can not be NULL");
 	hypercv_assert(src_mat != NULL,"save mat can not be null");
 	hypercv_assert(src_mat->data_type == 1,"save mat only 0-255");
+	hypercv_assert(src_mat->channels == 1 || src_mat->channels == 3,"save mat must have 1 or 3 channels");
 
 	FILE *fp = fopen(bmpName, "wb");
 	hypercv_assert(fp != NULL,"save file can not open");
@@ -222,7 +223,7 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 		colorTablesize=1024;
 	}
 
-	int lineByte = (width * biBitCount / 8 + 3) / 4 * 4;
+	long int lineByte = ((long int)width * biBitCount / 8 + 3) / 4 * 4;
 	BmpFileHeader fileHead;
 	fileHead.bfType=0x4D42;
 
@@ -233,7 +234,7 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 
 	fileHead.bfOffBits = 54 + colorTablesize;
 
-	fwrite(&fileHead, sizeof(BmpFileHeader), 1, fp);
+	int write_ok = fwrite(&fileHead, sizeof(BmpFileHeader), 1, fp) == 1;
 
 	BmpInfoHeader infoHead;
 	infoHead.biBitCount      = biBitCount;
@@ -248,39 +249,28 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 	infoHead.biXPelsPerMeter = 100;
 	infoHead.biYPelsPerMeter = 100;
 
-	fwrite(&infoHead, sizeof(BmpInfoHeader), 1, fp);
+	write_ok = fwrite(&infoHead, sizeof(BmpInfoHeader), 1, fp) == 1 && write_ok;
 
-	for(int i=0; i<height/2; i++)
+	// the file holds the rows from bottom to top and the channels as bgr
+	unsigned char* tmp = (unsigned char*)calloc(height, lineByte);
+	MALLOC_FAIL_CHECK(tmp);
+	for(int i=0; i<height; i++)
 	{
+		unsigned char* data = tmp + (height-i-1)*lineByte;
+		unsigned char* row = imgBuf + (long int)i*width*channels;
 		for(int j=0; j<width; j++)
 		{
 			for(int k=0; k<channels; k++)
-			{
-				int tempbuf = imgBuf[i*width*channels + j*channels + k];
-				imgBuf[i*width*channels + j*channels + k] = imgBuf[(height-i-1)*width*channels + j*channels + 2-k];
-				imgBuf[(height-i-1)*width*channels + j*channels + 2-k] = tempbuf;
-			}
-
-		}
-	}
-
-	if(lineByte > width*biBitCount/8)
-	{
-		unsigned char* tmp = (unsigned char*)malloc(height*lineByte);
-		unsigned char* data = tmp ;
-		for(int i=0; i<height; i++)
-		{
-			memcpy(data, imgBuf, width*3);
-			imgBuf += width*3;
-			data += lineByte;
+				data[j*channels + k] = row[j*channels + 2-k];
 		}
-		fwrite(tmp, height*lineByte, 1, fp);
-		free(tmp);
 	}
-	else 
-		fwrite(imgBuf, height*lineByte, 1, fp);
+	write_ok = fwrite(tmp, height*lineByte, 1, fp) == 1 && write_ok;
+	free(tmp);
 
-	fclose(fp);
+	int close_error = fclose(fp);
+	if(mat != src_mat)
+		delete_simple_mat(mat);
+	hypercv_assert(write_ok && close_error == 0, "can not write bmp image");
 }
 
 /**
-- 
2.43.0


From 4b51e19c2e2c65e847592e5245643d6bfcd2fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 10/74] fix: simple_mat_contrast_ratio leaked its gray image

---
 modules/core/src/c_src/simplemat.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 381c448..d6706e1 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -443,6 +443,9 @@ float simple_mat_contrast_ratio(simple_mat mat)
 		}
 	}
 
+	if(tmp != mat)
+		delete_simple_mat(tmp);
+
 	res = res/(4*(cols-2)*(rows-2)+3*2*(rows-2)+3*2*(cols-2)+2*4);
 	return res;
 }
-- 
2.43.0


From 28cc8970f48c09ad67acfeba3174f388356fe5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 11/74] fix: delete_S_2D leaked the data of create_2D_struct

---
 modules/core/src/c_src/struct_2D.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/c_src/struct_2D.c b/modules/core/src/c_src/struct_2D.c
index 416b0f6..6958bd1 100644
--- a/modules/core/src/c_src/struct_2D.c
+++ b/modules/core/src/c_src/struct_2D.c
@@ -15,12 +15,20 @@ S_2D create_2D_struct(int width, int height)
 {
 	hypercv_assert(width>=1 && height>=1, "2D struct's width or height must bigger than 0");
 	
-	unsigned char * data = (unsigned char*)malloc(width * height * sizeof(unsigned char));
+	S_2D s = (S_2D)malloc(sizeof(STRUCT_2D) + (size_t)width * height * sizeof(unsigned char));
+	MALLOC_FAIL_CHECK(s);
+
+	// the data lies behind the struct, delete_S_2D gives back both
+	unsigned char * data = (unsigned char*)(s + 1);
 	
 	for(int i=0; i<width*height; i++)
 		data[i] = 1;
-	
-	return create_2D_struct_with_data(width, height, data);
+
+	s->data = data;
+	s->width = width;
+	s->height = height;
+
+	return s;
 	
 }
 
-- 
2.43.0


From 2749d12b2146c76a5264fed67c98aab63bedbcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 12/74] fix: HyMat construction read uninitialised members and
 the default constructor always exited

---
 modules/core/include/cxx_include/hypermat.hpp | 67 ++++++++++---------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index d940d16..b764e9b 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -27,19 +27,19 @@ namespace hypercv
 			/* 
 			 * HYPER_MAT 
 			 * */
-			int          lines;
-			int          samples;
-			int          bands;
-			int          dataType;
-			int          format;
+			int          lines = 0;
+			int          samples = 0;
+			int          bands = 0;
+			int          dataType = HYPERCV_UCHAR;
+			int          format = HYPERCV_BSQ;
 			//todo 修改所有format 改成 int format， HYPERCV_BIL HYPERCV_BIP HYPERCV_BSQ 
 
-			char         interleave[3];
-			void*        data;
-			float*       wavelength;
+			char         interleave[3] = {'b', 's', 'q'};
+			void*        data = NULL;
+			float*       wavelength = NULL;
 
-			int          elemSize;
-			long int     dataSize;
+			int          elemSize = 0;
+			long int     dataSize = 0;
 
 			HyMat();
 
@@ -82,7 +82,6 @@ namespace hypercv
 
 	inline HyMat::HyMat()
 	{
-		create(0, 0, 0, HYPERCV_UCHAR, HYPERCV_BSQ);
 	}
 
 	inline HyMat::HyMat(int _samples, int _lines, int _bands, int _dataType, int _format)
@@ -121,16 +120,16 @@ namespace hypercv
 	inline void HyMat::create(int _samples, int _lines, int _bands, int _dataType, int _format, void* _data, float* _wavelength)
 	{
 
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
 		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if(data)
@@ -162,13 +161,14 @@ namespace hypercv
 		}
 
 		elemSize  = get_elemsize(dataType);
-		dataSize  = samples * lines * bands * elemSize;
+		dataSize  = (long int)samples * lines * bands * elemSize;
 
 		if(_data)
 			data = _data;
 		else 
 		{
 			data = (void*)malloc(dataSize);
+			MALLOC_FAIL_CHECK(data);
 			memset(data, 0, dataSize);
 		}
 
@@ -177,6 +177,7 @@ namespace hypercv
 		else
 		{
 			wavelength = (float*)malloc(bands*sizeof(float));
+			MALLOC_FAIL_CHECK(wavelength);
 			memset(wavelength, 0, bands*sizeof(float));
 		}	
 	}
@@ -327,16 +328,16 @@ namespace hypercv
 
 	inline void HyMat::open(const char* path, int _samples, int _lines, int _bands, int _dataType, int _format)
 	{
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
 		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if (empty() == 0)
@@ -367,6 +368,7 @@ namespace hypercv
 
 		char* srcData = (char*)data;
 		char* dstData = (char*)malloc(dataSize);
+		MALLOC_FAIL_CHECK(dstData);
 
 		long int dstIndex, srcIndex; 
 
@@ -449,6 +451,7 @@ namespace hypercv
 		data = NULL;
 		wavelength = NULL;
 		samples = lines = bands = dataType = 0;
+		dataSize = 0;
 
 	}
 
-- 
2.43.0


From 794cc2f4e4a9535c8d650bec91dfebab97f016db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 13/74] fix: HyMat::save ignored write errors, wrote its header
 to a wrong path and could mix old and new files after a crash

---
 modules/core/include/cxx_include/hypermat.hpp | 46 +++++++++----------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index b764e9b..b63a9ed 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -5,6 +5,8 @@
 
 #include "type.hpp"
 
+#include <errno.h>
+
 #if gdal_switch 
 #include "gdal_priv.h"
 #include "cpl_conv.h"
@@ -237,59 +239,55 @@ namespace hypercv
 			return;
 		}
 
-		//#if gdal_switch 
-		GDALAllRegister();
-		GDALDataset *dataSet;
-		GDALDriver *hDriver = GetGDALDriverManager()->GetDriverByName("ENVI");	
-		GDALDataType DT = dataType2GDALDataType(dataType);
-
-		char** papszOptions = NULL;
-		dataSet = hDriver->Create(filePath, samples, lines, bands, DT, papszOptions);
-
-		//	dataSet->RasterIO(GF_Write, 0, 0, samples, lines, data, DT, )
-		//todo	
-		//#endif 
+		// the old header must not describe the new data
+		std::string hdrPath = std::string(filePath) + ".hdr";
+		int removed = remove(hdrPath.c_str()) == 0 || errno == ENOENT;
+		hypercv_assert(removed, "can not replace hdr file");
 
 		FILE* _fp;
 		_fp = fopen(filePath, "wb");
-		if(_fp == NULL)
-		{
-			return;
-			printf("can not open files\n");
-		}
-		fwrite(data, elemSize, samples * lines * bands, _fp);
+		hypercv_assert(_fp != NULL, "can not open files");
+		size_t count = (size_t)samples * lines * bands;
+		size_t writeSize = fwrite(data, elemSize, count, _fp);
+		int closeError = fclose(_fp);
+		hypercv_assert(writeSize == count && closeError == 0, "can not write image file");
+
 		this->writeHdr(filePath);
-		fclose(_fp);
 
 	}
 
 	inline void HyMat::writeHdr(const char* filePath)
 	{
 		std::string path(filePath);
-		path = path.substr(0, path.find('.')) + "hdr";
+		path = path + ".hdr";
 
 		FILE *fp;
 		fp = fopen(path.c_str(), "w");
+		hypercv_assert(fp != NULL, "can not open hdr file");
 
 		fputs("ENVI\n", fp);
 		fputs("samples = ", fp); fprintf(fp, "%d\n", samples);
 		fputs("lines = ", fp); fprintf(fp, "%d\n", lines);
 		fputs("bands = ", fp); fprintf(fp, "%d\n", bands);
 		fputs("data type = ", fp); fprintf(fp, "%d\n", dataType);
-		fputs("interleave = ", fp); fprintf(fp, "%c%c%c\n", interleave[0], interleave[1], interleave[2]);
-
 		if(wavelength != NULL)
 		{
 			fputs("wavelength = { \n", fp); 
 			for(int i=0; i<bands-1; i++)
 				fprintf(fp,"%f,",wavelength[i]);
-			fprintf(fp,"%f}",wavelength[bands-1]);
+			fprintf(fp,"%f}\n",wavelength[bands-1]);
 		}
 		else 
 		{
 			fputs("wavelength = unknown \n",fp);
 		}
-		fclose(fp);
+
+		// the last field, so that a header that was cut is never taken for a complete one
+		fputs("interleave = ", fp); fprintf(fp, "%c%c%c\n", interleave[0], interleave[1], interleave[2]);
+
+		int writeError = ferror(fp);
+		int closeError = fclose(fp);
+		hypercv_assert(writeError == 0 && closeError == 0, "can not write hdr file");
 	}
 
 	inline void HyMat::open(const char* imagePath, const char* hdrPath)
-- 
2.43.0


From 70fa6f422ff3ff604c4c8aa204d26d3d21326787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 14/74] fix: HyMat::open wrote wavelengths through NULL,
 accepted damaged or missing files and read past its buffer

---
 modules/core/include/cxx_include/hypermat.hpp |  37 ++++--
 modules/core/src/cxx_src/hypermat.cpp         | 120 ++++++++++++------
 2 files changed, 107 insertions(+), 50 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index b63a9ed..856e7d7 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -14,7 +14,8 @@
 
 namespace hypercv
 {
-	extern void readHdr(const char* hdrPath, int& samples, int& lines, int& bands, int& dataType, int& format, float* wavelength);
+	// returns 1 and a new wavelength list (NULL if the header has none), or 0 if the header is missing or damaged
+	extern int readHdr(const char* hdrPath, int& samples, int& lines, int& bands, int& dataType, int& format, float*& wavelength);
 
 #if gdal_switch
 #ifndef DATA_TYPE_2_GDAL_DATA_TYPE
@@ -301,15 +302,15 @@ namespace hypercv
 		if (empty() == 0)
 			release();
 
-		int _samples, _lines, _bands, _dataType;
-		readHdr(hdrPath, _samples, _lines, _bands, _dataType, format, wavelength);
-
-		samples = _samples;
-		lines = _lines;
-		bands = _bands;
-		dataType = _dataType;
+		int _samples, _lines, _bands, _dataType, _format;
+		float* _wavelength = NULL;
+		if (readHdr(hdrPath, _samples, _lines, _bands, _dataType, _format, _wavelength) == 0)
+		{
+			printf("hdr file is missing or damaged\n");
+			return;
+		}
 
-		create();
+		create(_samples, _lines, _bands, _dataType, _format, NULL, _wavelength);
 
 		FILE* _fp = NULL;
 		_fp = fopen(imagePath, "r");
@@ -317,11 +318,18 @@ namespace hypercv
 		if (_fp == NULL )
 		{
 			printf("can not open file\n");
+			release();
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
+		long int readSize = fread(data, 1, dataSize, _fp);
 		fclose(_fp);
+
+		if (readSize != dataSize)
+		{
+			printf("image file is damaged\n");
+			release();
+		}
 	}
 
 	inline void HyMat::open(const char* path, int _samples, int _lines, int _bands, int _dataType, int _format)
@@ -349,12 +357,19 @@ namespace hypercv
 		if (_fp == NULL )
 		{
 			printf("can not open file\n");
+			release();
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
+		long int readSize = fread(data, 1, dataSize, _fp);
 		fclose(_fp);
 
+		if (readSize != dataSize)
+		{
+			printf("image file is damaged\n");
+			release();
+		}
+
 	}
 
 	inline void HyMat::convertTo(int _format)
diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 7b468a5..75e6073 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -45,71 +45,113 @@ namespace hypercv
 	}
 #endif
 
-	void readHdr(const char* hdrPath, int& samples, int& lines, int& bands,  int& dataType, int& format, float* wavelength)
+	// true if the field name in front of '=' is name
+	static bool hdrField(const string& line, const string& name)
 	{
+		size_t start = line.find_first_not_of(" \t");
+		if(start == line.npos || line.compare(start, name.size(), name) != 0)
+			return false;
+
+		size_t end = line.find_first_not_of(" \t", start + name.size());
+		return end != line.npos && line[end] == '=';
+	}
+
+	int readHdr(const char* hdrPath, int& samples, int& lines, int& bands,  int& dataType, int& format, float*& wavelength)
+	{
+		samples = lines = bands = dataType = 0;
+		format = -1;
+		wavelength = NULL;
+
 		if(hdrPath == NULL)
-			return;
+			return 0;
 
 		std::ifstream file;
 		file.open(hdrPath,ios::in);
 
 		if(!file.is_open())
-			return;
-
-		string lineBuff;
+			return 0;
 
+		string lineBuff, waveBuff;
 
 		while (getline(file,lineBuff))
 		{  
-			const char* line = lineBuff.c_str();
-			char item[20];
-			sscanf(line, "%[^=]", item);
+			size_t start = lineBuff.find('=');
+			if(start == lineBuff.npos)
+				continue;
 
-			if (cmpstr(item, (char*)"samples") == 1)
-				sscanf(line, "%*[^=]=%d",&samples);
+			start = lineBuff.find_first_not_of(" \t", start + 1);
+			string value = start == lineBuff.npos ? "" : lineBuff.substr(start);
 
-			else if (cmpstr(item, (char*)"lines") == 1)
-				sscanf(line, "%*[^=]=%d",&lines);
+			if (value[0] == '{')
+			{
+				string nextBuff;
+				while(value.find('}') == value.npos && getline(file,nextBuff))
+					value += "\n" + nextBuff;
+				if (hdrField(lineBuff, "wavelength"))
+					waveBuff = value;
+			}
+			else if (hdrField(lineBuff, "samples"))
+				samples = atoi(value.c_str());
+
+			else if (hdrField(lineBuff, "lines"))
+				lines = atoi(value.c_str());
 
-			else if (cmpstr(item, (char*)"bands") == 1)
-				sscanf(line, "%*[^=]=%d", &bands);
+			else if (hdrField(lineBuff, "bands"))
+				bands = atoi(value.c_str());
 
-			else if (cmpstr(item, (char*)"data") == 1)
-				sscanf(line, "%*[^=]=%d", &dataType);
+			else if (hdrField(lineBuff, "data type"))
+				dataType = atoi(value.c_str());
 
-			else if (lineBuff.find("interleave")!=lineBuff.npos)
+			else if (hdrField(lineBuff, "interleave"))
 			{
-				if(lineBuff.find("q")!=lineBuff.npos)
+				string it = value.substr(0, 3);
+				for (size_t i=0; i<it.size(); i++)
+					it[i] = tolower(it[i]);
+
+				format = -1;
+				if(it == "bsq")
 					format = HYPERCV_BSQ;
-				else if(lineBuff.find("p")!=lineBuff.npos)
+				else if(it == "bip")
 					format = HYPERCV_BIP;
-				else 
+				else if(it == "bil")
 					format = HYPERCV_BIL;
 			}
-			else if (lineBuff.find("wavelength = {")!=lineBuff.npos)
-			{	
-				string waveBuff, s;
-				stringstream ss;
-				do
-				{
-					int startIndex, endIndex;
+		}
 
-					startIndex = lineBuff.find('{')==lineBuff.npos?0:lineBuff.find('{')+1;
-					endIndex = lineBuff.find('}')==lineBuff.npos?lineBuff.size():lineBuff.find('}');
-					waveBuff += lineBuff.substr(startIndex,endIndex);
-				}
-				while(lineBuff.find('}')==lineBuff.npos&&getline(file,lineBuff));
-				ss<<waveBuff;
-				for(int i=0;i<bands;i++)
-				{
-					ss>>s;
-					wavelength[i] = atof(s.c_str());
-				}
+		bool readError = file.bad();
+		file.close();
+
+		int elemSize = get_elemsize(dataType);
+		if (readError || samples <= 0 || lines <= 0 || bands <= 0 || elemSize <= 0 || format < 0
+				|| lines > PTRDIFF_MAX / samples / bands / elemSize)
+			return 0;
+
+		if (waveBuff.empty())
+			return 1;
 
+		float* wave = (float*)malloc(bands * sizeof(float));
+		MALLOC_FAIL_CHECK(wave);
+
+		const char* item = waveBuff.c_str() + 1;
+		for(int i=0;i<bands;i++)
+		{
+			char* end = NULL;
+			wave[i] = strtod(item, &end);
+			bool valid = end != item;
+
+			while(*end==' '||*end=='\t'||*end=='\r'||*end=='\n')
+				end++;
+
+			if(!valid || *end != (i == bands-1 ? '}' : ','))
+			{
+				free(wave);
+				return 0;
 			}
+			item = end + 1;
 		}
 
-		file.close();
+		wavelength = wave;
+		return 1;
 	}
 
 	/**
-- 
2.43.0


From afdb2a609f8643834968931353c4aa076badc486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 15/74] fix: cutting ranges and bands read outside the cube and
 left a stale element size

---
 modules/process/src/c_src/imageprocess.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 5aa544a..098d852 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -388,6 +388,7 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, int start_band, int end_row, int end_col, int end_band)
 {
 	hypercv_assert(start_col<end_col && start_row<end_row && start_band<end_band, "start col & start row & start band must < end col & end row & end band");
+	hypercv_assert(start_col>=0 && start_row>=0 && start_band>=0 && end_col<=src_mat->samples && end_row<=src_mat->lines && end_band<=src_mat->bands, "range must be inside the hyper mat");
 
 	int samples = end_col - start_col;
 	int lines = end_row - start_row;
@@ -509,11 +510,16 @@ void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 	int samples,lines;
 	samples = src_mat -> samples;
 	lines = src_mat -> lines;
+	int elemsize = get_elemsize(src_mat->data_type);
+	hypercv_assert(band>0 && band<=src_mat->bands, "band must be inside the hyper mat");
+	hypercv_assert((long int)dst_mat->rows*dst_mat->cols*dst_mat->channels*dst_mat->elem_size >= (long int)lines*samples*elemsize, "simple mat is too small for the band");
+
 	dst_mat -> rows = lines;
 	dst_mat -> cols = samples;
+	dst_mat -> channels = 1;
 	dst_mat -> data_type = src_mat -> data_type;
+	dst_mat -> elem_size = elemsize;
     
-	int elemsize = get_elemsize(src_mat->data_type);
 	char* data = (char*)src_mat->data+(samples*lines*(band-1)*elemsize);
 
 	memcpy((char*)dst_mat->data,(char*)data,samples*lines*elemsize);
-- 
2.43.0


From 0df8c75ef36c47e0ee68ca43e64c42b0491b9b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 16/74] fix: simple_mat_2_hyper_mat ignored the element size

---
 modules/process/src/c_src/imageprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 098d852..adf4607 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -541,10 +541,13 @@ void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 	hypercv_assert(band<=bands&&band>0,"band<bands");
 	hypercv_assert(cmpstr(dst_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
 
-	char* dst = (char*)dst_mat->data + samples*lines*(band-1);
+	hypercv_assert(src_mat->data_type == dst_mat->data_type && src_mat->channels == 1,"simple mat type unequal to hyper mat");
+
+	long int elemsize = get_elemsize(dst_mat->data_type);
+	char* dst = (char*)dst_mat->data + samples*lines*(band-1)*elemsize;
 	char* src = (char*)src_mat->data;
 
-	memcpy(dst,src,samples*lines);
+	memcpy(dst,src,samples*lines*elemsize);
 }
 
 /**
-- 
2.43.0


From 2eaa7dba598d19ab5224dc567df2ee772af895ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 17/74] fix: simple_mat_transport ignored channels

---
 modules/process/src/c_src/imageprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index adf4607..134aeb3 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -563,7 +563,8 @@ void simple_mat_transport(simple_mat res,simple_mat src)
 	hypercv_assert(rows == src->cols && cols == src->rows && res->data_type == src->data_type, "data size of transport image equal to srcmat ");
 
 	int data_type = src->data_type;
-	int elemsize = get_elemsize(data_type);
+	hypercv_assert(res->channels == src->channels, "channels of transport image equal to srcmat ");
+	int elemsize = get_elemsize(data_type)*src->channels;
 
 	char *res_data = (char*)res->data;
 	char *src_data = (char*)src->data;
-- 
2.43.0


From cda698dc11b872ace7a1cddcbbf9728d6f3b556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 18/74] fix: simple_mat_addition read and wrote with a wrong
 row stride for mats of different widths

---
 modules/process/src/c_src/imageprocess.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 134aeb3..d41ac1f 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -594,6 +594,8 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	else
 		cols = mat1->cols;
 
+	hypercv_assert(dst_mat->rows >= rows && dst_mat->cols >= cols && dst_mat->channels == channels,"dst mat is too small");
+
 	unsigned char* data1 = (unsigned char*)mat1->data;
 	unsigned char* data2 = (unsigned char*)mat2->data;
 	
@@ -602,7 +604,7 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)	
 			for(int k=0;k<channels;k++)
-				dst_data[i*cols*channels+j*channels+k] = data1[i*cols*channels+j*channels+k]+data2[i*cols*channels+j*channels+k];
+				dst_data[i*dst_mat->cols*channels+j*channels+k] = data1[i*mat1->cols*channels+j*channels+k]+data2[i*mat2->cols*channels+j*channels+k];
 
 }
 
@@ -624,6 +626,8 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	else
 		cols = mat1->cols;
 
+	hypercv_assert(dst_mat->rows >= rows && dst_mat->cols >= cols && dst_mat->channels == channels,"dst mat is too small");
+
 	float* data1 = (float*)mat1->data;
 	float* data2 = (float*)mat2->data;
 	float* dst_data = (float*)dst_mat->data;
@@ -631,7 +635,7 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
 			for(int k=0;k<channels;k++)
-				dst_data[i*cols*channels+j*channels+k] = data1[i*cols*channels+j*channels+k]+data2[i*cols*channels+j*channels+k];
+				dst_data[i*dst_mat->cols*channels+j*channels+k] = data1[i*mat1->cols*channels+j*channels+k]+data2[i*mat2->cols*channels+j*channels+k];
 
 }
 
-- 
2.43.0


From e475d6ccc1887af81650b15c83b38148aca0c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 19/74] fix: hyper_mat_splicing wrote past the end of the cube

---
 modules/process/src/c_src/imageprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index d41ac1f..f1b8315 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -659,6 +659,7 @@ void hyper_mat_splicing(hyper_mat mat, hyper_mat part, int start_index)
 	hypercv_assert(mat->data_type == part->data_type,"data type error");
 
 	int elemsize = get_elemsize(mat->data_type); 
+	hypercv_assert(start_index >= 0 && start_index + (long int)part->samples*part->lines*part->bands <= (long int)mat->samples*mat->lines*mat->bands,"part must be inside the hyper mat");
 
 	unsigned char* mat_data = (unsigned char*)mat->data+start_index*elemsize;
 	unsigned char* part_data= (unsigned char*)part->data;
-- 
2.43.0


From f73612ec9bf3a0eb731cfa0e936d361d2020c03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 20/74] fix: simple_mat_flip treated every image as bytes

---
 modules/process/src/c_src/GeometricTransformation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 5ec5845..6b7b00e 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -14,6 +14,9 @@ void simple_mat_flip_horizontal(simple_mat src_mat,simple_mat dst_mat)
 	int cols = src_mat->cols;
 	int channels = src_mat->channels;
 	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels,"src_mat size != dst_mat size");
+	hypercv_assert(src_mat->data_type == dst_mat->data_type,"src_mat data type != dst_mat data type");
+
+	channels = channels * get_elemsize(src_mat->data_type);
 
 	unsigned char* src_data = (unsigned char*)src_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
@@ -33,6 +36,9 @@ void simple_mat_flip_vertical(simple_mat src_mat,simple_mat dst_mat)
 	int cols = src_mat->cols;
 	int channels = src_mat->channels;
 	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels,"src_mat size != dst_mat size");
+	hypercv_assert(src_mat->data_type == dst_mat->data_type,"src_mat data type != dst_mat data type");
+
+	channels = channels * get_elemsize(src_mat->data_type);
 
 	unsigned char* src_data = (unsigned char*)src_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
-- 
2.43.0


From 2973c82bdfc0fc94031d87e7f3bdfb8ec0cbf2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 21/74] fix: the image pyramids leaked their temporary images

---
 modules/process/src/c_src/GeometricTransformation.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 6b7b00e..3f534bd 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -89,7 +89,7 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 	hypercv_assert(src_rows>=2&&src_cols>=2,"input mat size must > 2*2");
 	hypercv_assert(dst != NULL, "dst mat == null");
 	hypercv_assert(dst->rows ==(int)((src_rows+1)/2) && dst->cols==(int)((src_cols+1)/2),"dst size error");
-	hypercv_assert(dst->data_type == src->data_type, "dst data_type error");
+	hypercv_assert(dst->data_type == src->data_type && dst->channels == src->channels, "dst data_type error");
 	
 	simple_mat tmp = create_simple_mat(src_rows,src_cols,data_type,channels);
 
@@ -106,6 +106,7 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 			for(int m=0;m<channels;m++)
 			  dst_data[i*dst_cols*channels+j*channels+m] = tmp_data[2*i*src->cols*channels+2*j*channels+m];
 	
+	delete_simple_mat(tmp);
 }
 
 void hypercv_pyramid_up(simple_mat src, simple_mat dst)
@@ -120,7 +121,7 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 	hypercv_assert(src_rows>=2&&src_cols>=2,"input mat size must > 2*2");
 	hypercv_assert(dst != NULL, "dst mat == null");
 	hypercv_assert(dst->rows == src_rows*2 && dst->cols== src_cols*2,"dst size error");
-	hypercv_assert(dst->data_type == src->data_type, "dst data_type error");
+	hypercv_assert(dst->data_type == src->data_type && dst->channels == src->channels, "dst data_type error");
 	
 	simple_mat tmp = simple_mat_copy(dst);
 
@@ -154,6 +155,9 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 		kernel_data[i]=kernel_data[i]*2;
 
 	hypercv_gaussian_blur_with_kernel(tmp,dst,kernel,kernel,1);
+
+	delete_simple_mat(kernel);
+	delete_simple_mat(tmp);
 }
 
 
-- 
2.43.0


From c22517fa8bb8cbd9f953bd27468d5646571fa919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 22/74] fix: hyper_mat_rotate wrote outside its result and
 converted its input

---
 modules/process/src/c_src/GeometricTransformation.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 3f534bd..7f5e028 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -164,8 +164,11 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 {
 
-	if(cmpstr(mat->interleave,"bip")!=1)
-		convert2bip(mat);
+	hypercv_assert(mat != NULL,"input mat cannot be NULL");
+
+	mat = hyper_mat_copy(mat);
+	convert2bip(mat);
+
 	double theta = angle * PI/180;
 	double c = cos(theta);
 	double s = sin(theta);
@@ -205,6 +208,8 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 		{
             int x = i * c + j * s + di;
 			int y = j * c - i * s + dj;
+			if(x < 0 || x >= height || y < 0 || y >= width)
+				continue;
 			int dstOft = (x * width + y) * mat->bands * elem_size;
 			int srcOft = (i * mat->samples + j) * mat->bands * elem_size;
 			unsigned char* src = src_data + srcOft;
@@ -213,5 +218,6 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 		}
 
 	}
+	delete_hyper_mat(mat);
 	return dst_mat;
 }
-- 
2.43.0


From 26d7f18c580ffee0c3bca78295e8abaa35a7219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 23/74] fix: filter2D overwrote the type of its result and
 added to what the result held before

---
 modules/process/src/c_src/filter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 3ce9c5e..21b2bba 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -87,7 +87,8 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 {
 	hypercv_assert(src!= NULL&&dst!=NULL,"input mat cannot be null");
 	hypercv_assert(kernel!=NULL,"kernel cannot be null");
-	hypercv_assert(dst->data_type = 4,"dst data_type == float");
+	hypercv_assert(dst->data_type == 4,"dst data_type == float");
+	hypercv_assert(dst->rows == src->rows && dst->cols == src->cols && dst->channels == src->channels,"src size == dst size");
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -96,6 +97,7 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 	
 	unsigned char* src_data = (unsigned char*)src->data;
 	float* dst_data = (float*)dst->data;
+	memset(dst_data, 0, (long int)rows*cols*cn*sizeof(float));
 	
 	int index_i,index_j;
 	for(int i=0;i<rows;i++)
-- 
2.43.0


From 1264e03f02f303f668fa86f2b05e9af24a143bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 24/74] fix: gaussian blur leaked its kernels and temporary
 image, and results without an output mat

---
 modules/process/src/c_src/filter.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 21b2bba..ef6486f 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -312,6 +312,9 @@ void hypercv_gaussian_blur(simple_mat src_mat, simple_mat dst_mat, int ksize_wid
 	simple_mat kernel_mat_x = gaussian_kernel(ksize_width, sigma1, kdepth);
 	simple_mat kernel_mat_y = gaussian_kernel(ksize_height,sigma2, kdepth);
 	hypercv_gaussian_blur_with_kernel(src_mat, dst_mat, kernel_mat_x, kernel_mat_y, border_type);
+
+	delete_simple_mat(kernel_mat_x);
+	delete_simple_mat(kernel_mat_y);
 }
 
 /**
@@ -341,8 +344,7 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 	int border_x = ksize_width/2;
 	int border_y = ksize_height/2;
 
-	if(dst_mat == NULL)
-		dst_mat = create_simple_mat(src_mat->rows, src_mat->cols, src_mat->data_type,cn);
+	hypercv_assert(dst_mat != NULL,"output mat must not be NULL");
 	unsigned char* dst_data =(unsigned char*) dst_mat -> data;
 
 	int src_rows = src_mat->rows;
@@ -453,6 +455,8 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 			}
 		}
 	}
+
+	delete_simple_mat(temp_mat);
 }
 
 /**
@@ -472,9 +476,7 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 	hypercv_assert(data_type == 1,"only use in char");
 	hypercv_assert(channels == 1,"integral use with gray image");
 
-	if(dst == NULL)
-		dst = create_simple_mat(rows,cols,3,1);
-
+	hypercv_assert(dst != NULL,"output mat cannot be null");
 	hypercv_assert(dst->channels == 1&&dst->data_type == 3,"dst mat error");
 
 	unsigned char* src_data = (unsigned char*)src->data;
-- 
2.43.0


From ce1b38c5b015d7e4e7082de7085419c8b1435acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 25/74] fix: hypercv_copy_make_border treated every image as
 bytes

---
 modules/process/src/c_src/filter.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index ef6486f..7760a57 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -44,7 +44,7 @@ static void hypercv_make_const_border(simple_mat src, simple_mat dst, int top, i
 	int src_cols = src->cols;
 	int dst_rows = dst->rows;
 	int dst_cols = dst->cols;
-	int channels = src->channels;
+	int channels = src->channels * get_elemsize(src->data_type);
 
 	unsigned char* src_data = (unsigned char*)src->data;
 	unsigned char* dst_data = (unsigned char*)dst->data;
@@ -532,8 +532,7 @@ simple_mat hypercv_copy_make_border(simple_mat src, int top, int bottom, int lef
 
 	int dst_rows = dst->rows;
 	int dst_cols = dst->cols;
-	int channels = dst->channels;
-	int elemsize = get_elemsize(dst->data_type);
+	int channels = dst->channels * get_elemsize(dst->data_type);
 	int src_rows = src->rows;
 	int src_cols = src->cols;
 
-- 
2.43.0


From 9460170609f03a5ee4ef4ff0a503f5477a177710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 26/74] fix: constant borders read past images of one row or
 column

---
 modules/core/include/c_include/type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/include/c_include/type.h b/modules/core/include/c_include/type.h
index 6af5017..2e780f6 100644
--- a/modules/core/include/c_include/type.h
+++ b/modules/core/include/c_include/type.h
@@ -181,7 +181,7 @@ static inline int hypercv_border_Interpolate(int p, int len, unsigned int border
 			}
 		case BORDER_CONSTANT:
 			{
-				index = 1;
+				index = len > 1 ? 1 : 0;
 				break;
 			}
 	}
-- 
2.43.0


From 58803e9e471f4845b8f7c07b980d27bdef4ee8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 27/74] fix: corrosion and expend mixed up rows and columns and
 left the image

---
 modules/process/src/c_src/morphology.c | 32 +++++++++++---------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index c533ba3..e64480c 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -34,8 +34,7 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 		return;
 	}	
 
-	if(dst_mat == NULL)
-		dst_mat = simple_mat_copy(mat);
+	hypercv_assert(dst_mat != NULL,"output mat cannot be NULL");
 
 	unsigned char * src = (unsigned char*)mat->data;
 	unsigned char * dst = (unsigned char*)dst_mat->data;
@@ -47,7 +46,7 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]!=0)
+			if(src[i*cols+j]!=0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -55,18 +54,18 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 0;
+					dst[i*cols+j] = 0;
 			}
 			else
-				dst[i*rows+j] = 0;
+				dst[i*cols+j] = 0;
 		}
 	}
 }
@@ -98,8 +97,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 		return;
 	}	
 
-	if(dst_mat == NULL)
-		dst_mat = simple_mat_copy(mat);
+	hypercv_assert(dst_mat != NULL,"output mat cannot be NULL");
 
 	unsigned char * src = (unsigned char*)mat->data;
 	unsigned char * dst = (unsigned char*)dst_mat->data;
@@ -111,7 +109,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]==0)
+			if(src[i*cols+j]==0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -119,18 +117,18 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 1;
+					dst[i*cols+j] = 1;
 			}
 			else
-				dst[i*rows+j] = src[i*rows+j];
+				dst[i*cols+j] = src[i*cols+j];
 		}
 	}
 }
@@ -154,8 +152,7 @@ void hypercv_open(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	int data_type = src->data_type;
 	int channels = src->channels;
 
-	if(dst == NULL)
-		dst = simple_mat_copy(src);
+	hypercv_assert(dst != NULL,"output mat cannot be NULL");
 
 	for(int i=0;i<iterations;i++)
 	{
@@ -182,8 +179,7 @@ void hypercv_close(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	int data_type = src->data_type;
 	int channels = src->channels;
 
-	if(dst == NULL)
-		dst = simple_mat_copy(src);
+	hypercv_assert(dst != NULL,"output mat cannot be NULL");
 
 	for(int i=0;i<iterations;i++)
 	{
-- 
2.43.0


From 2c0586c69e2862dc3486cbf9cb39908f93c17be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 28/74] fix: the otsu threshold read a gray image as three
 channels

---
 modules/process/src/c_src/threshold.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 5323e6f..5f80c34 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -32,7 +32,11 @@ int otsuThreshold(simple_mat img)
 	{//计算直方图
 		for(int j=0;j<width;j++)
 		{
-			double temp =data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
+			double temp;
+			if(channels == 3)
+				temp = data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
+			else
+				temp = data[i*step + j*channels];
 			temp = temp<0? 0:temp;
 			temp = temp>255? 255:temp;
 			Histogram[(int)temp]++;
-- 
2.43.0


From 1dedb0f81057af353f43c151dce0f7b9bc2a6b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 29/74] fix: read_spectrum_file overran its buffer, never ended
 on text and accepted short files

---
 modules/process/src/c_src/spectralprocess.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 4eaf7f7..3255c93 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -53,6 +53,7 @@ simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshol
 	char*  smat;
 
 	float* temp = (float*)malloc(sizeof(float)*bands);
+	MALLOC_FAIL_CHECK(temp);
 
 	for (int i = 0; i < lines; i++)
 	{
@@ -115,19 +116,25 @@ float* read_spectrum_file(const char* sp_path, int length)
 
 	hypercv_assert(fp != NULL, "can not open files");
 
+	hypercv_assert(length > 0, "length of spectrum must be greater than zero");
+
 	float* spectrum = (float*)malloc(length*sizeof(float));
+	MALLOC_FAIL_CHECK(spectrum);
 
-	float* sp = spectrum;
+	int count = 0;
 
-	float temp = 0;
+	while (count < length && fscanf(fp, "%f", &spectrum[count]) == 1)
+		count++;
 
-	while (fscanf(fp, "%f", &temp) != EOF)
+	fclose(fp);
+
+	if (count != length)
 	{
-		*sp = temp;
-		sp++;
+		printf("spectrum file is damaged\n");
+		free(spectrum);
+		return NULL;
 	}
 
-	fclose(fp);
 	return spectrum;
 }
 
-- 
2.43.0


From ee3079f89e18cb8afefce4d579cc409af2369c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 30/74] fix: matrix_QR_float leaked its columns

---
 modules/process/src/c_src/matrixprocess.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 8e8dc98..a5e9fb8 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -225,6 +225,8 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 {
 	float* col_a = (float*)malloc(m*sizeof(float));
 	float* col_q = (float*)malloc(m*sizeof(float));
+	MALLOC_FAIL_CHECK(col_a);
+	MALLOC_FAIL_CHECK(col_q);
 
 	for (int j=0;j<m;j++)
 	{
@@ -247,6 +249,9 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 		for(int i = 0;i<m;i++)
 			q[i*m+j] = col_q[i]/tmp;
 	}
+
+	free(col_a);
+	free(col_q);
 }
 
 void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m,int n)
-- 
2.43.0


From 6981df5e23d0dd22b3fc5a1cc354ecd2f47f20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 31/74] fix: unchecked allocations in matrix and wavelet
 functions

---
 modules/process/src/c_src/dwt.c           | 1 +
 modules/process/src/c_src/matrixprocess.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/modules/process/src/c_src/dwt.c b/modules/process/src/c_src/dwt.c
index 90063bc..bd4988f 100644
--- a/modules/process/src/c_src/dwt.c
+++ b/modules/process/src/c_src/dwt.c
@@ -121,6 +121,7 @@ wavelet_base* set_wavelet_base(int wave_type)
 	hypercv_assert(wave_type!=HYPERCV_WAVE_DB3||wave_type!=HYPERCV_WAVE_BIOR3_7,"ERROR WAVE TYPE")
 	wavelet_base *wb;
 	wb = (wavelet_base*) calloc(1,sizeof(wavelet_base));
+	MALLOC_FAIL_CHECK(wb);
 	
 	switch(wave_type)
 	{
diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index a5e9fb8..8ef2023 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -257,6 +257,7 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m,int n)
 {
 	float* temp = (float*)malloc(m*n*sizeof(float));
+	MALLOC_FAIL_CHECK(temp);
 	float evalue ;
 
 	for(int count =0;count < n;count++)
@@ -378,6 +379,7 @@ void swap_rows_float(float* data, int m,int n, int r1, int r2)
 	hypercv_assert(r1!=r2,"select row can not equal");
 
 	float* tmp =(float*)malloc(n*sizeof(float));
+	MALLOC_FAIL_CHECK(tmp);
 	float* dr1 = data + r1*n;
 	float* dr2 = data + r2*n;
 
-- 
2.43.0


From 44bade5f55c01c41ac24cc3fb3148633fd51c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 32/74] fix: hyper_mat_cem summed into uninitialised memory and
 converted its input

---
 modules/algorithm/src/cem.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index 40092db..05cd054 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -15,8 +15,13 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 {
 	hypercv_assert(bsq_mat->data_type == 4           , "input mat data_type is float");
 	
+	hyper_mat tmp_mat = NULL;
 	if(cmpstr(bsq_mat->interleave, "bsq") != 1)
-		convert2bsq(bsq_mat);
+	{
+		tmp_mat = hyper_mat_copy(bsq_mat);
+		convert2bsq(tmp_mat);
+		bsq_mat = tmp_mat;
+	}
 		
 	int samples   = bsq_mat -> samples;
 	int lines     = bsq_mat -> lines;
@@ -39,9 +44,12 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 
 	invert_matrix_float(invdata, c_data, bands);
 
-	float* fir1 = (float*)malloc(bands * sizeof(float));
-	float* fir2 = (float*)malloc(bands * sizeof(float));
-	float* fir3 = (float*)malloc(sizeof(float));
+	float* fir1 = (float*)calloc(bands, sizeof(float));
+	float* fir2 = (float*)calloc(bands, sizeof(float));
+	float* fir3 = (float*)calloc(1, sizeof(float));
+	MALLOC_FAIL_CHECK(fir1);
+	MALLOC_FAIL_CHECK(fir2);
+	MALLOC_FAIL_CHECK(fir3);
 
 	MulMatrix_float(fir1, invdata, spectral, bands, bands, 1);
 	MulMatrix_float(fir2, spectral, invdata, 1, bands, bands);
@@ -55,6 +63,7 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 
 	MulMatrix_float(res_data, t_data, fir1, samples*lines,bands, 1);
 
+	delete_hyper_mat(tmp_mat);
 	delete_simple_mat(src);
 	delete_simple_mat(t);
 	delete_simple_mat(corrmat);
-- 
2.43.0


From 3533efe5c52498692c2d1684dba1a830322c1512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 33/74] fix: hyper_mat_pca overwrote the type of its input and
 leaked

---
 modules/algorithm/src/pca.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index cbe71c5..8c73449 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -36,7 +36,7 @@ static void cal_covariance_matrix(simple_mat x, simple_mat mean_mat,simple_mat r
 void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 {
 
-	hypercv_assert(bip_mat->data_type = 4,"only use in float");
+	hypercv_assert(bip_mat->data_type == 4,"only use in float");
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
@@ -59,6 +59,7 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	}
 	//计算特征值，特征向量
 	float* evalue = (float*)malloc(bands*sizeof(float));
+	MALLOC_FAIL_CHECK(evalue);
 
 	for(int k=0;k<bands;k++)
 		evalue[k] = ((float*)temp->data)[k*bands+k];
@@ -84,5 +85,6 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	delete_simple_mat(q_mat);
 	delete_simple_mat(temp);
 	delete_simple_mat(eigen_vector);
+	free(evalue);
 
 }
-- 
2.43.0


From 04e43ce165594b552dc3d0516597bec1e8a0a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 34/74] fix: cal_edge_signal_energy overwrote the description
 of its input

---
 modules/algorithm/src/EdgeSignalEnergy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/EdgeSignalEnergy.c b/modules/algorithm/src/EdgeSignalEnergy.c
index 7ffdee2..d1d5c83 100644
--- a/modules/algorithm/src/EdgeSignalEnergy.c
+++ b/modules/algorithm/src/EdgeSignalEnergy.c
@@ -9,8 +9,8 @@
 float cal_edge_signal_energy(simple_mat mat)
 {
 	hypercv_assert(mat!=NULL, "input mat cannot be NULL");
-	hypercv_assert(mat->channels = 1,"only use in grayimage");
-	hypercv_assert(mat->data_type = 1,"data_type == 1");
+	hypercv_assert(mat->channels == 1,"only use in grayimage");
+	hypercv_assert(mat->data_type == 1,"data_type == 1");
   
 	float opt1[9] = {-1,-1,1,-1,4,-1,1,-1,-1};
 	float opt2[9] = {1,-1,-1,-1,4,-1,-1,-1,1};
-- 
2.43.0


From 179d0fd7c2c95d7127a54645190731ee7661c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 35/74] fix: hypercv_magnitude read outside the imaginary image

---
 modules/algorithm/src/dft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 4348a79..3ce9c41 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -244,7 +244,7 @@ void hypercv_magnitude(simple_mat re_mat, simple_mat im_mat, simple_mat dst_mat)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols*j],2));
+			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols+j],2));
 		}
 	}
 }
-- 
2.43.0


From 6f900b36b11d18d36783f4907995486bfb57fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 36/74] fix: shape matching leaked its moments

---
 modules/algorithm/src/shapematch.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index 5e12322..d126c0d 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -23,9 +23,7 @@ static double calc_similar_hu(double* hu1, double* hu2)
 
 void calc_hu_moment(double* hu,simple_mat mat)
 {
-	if(hu==NULL)
-		hu = (double*)malloc(7*sizeof(double));
-
+	hypercv_assert(hu!=NULL,"output moments cannot be NULL");
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
 
 	int cols = mat->cols;
@@ -108,12 +106,17 @@ double hypercv_match_shapes(simple_mat mat1, simple_mat mat2)
 
 	double* hu1 = (double*)malloc(7*sizeof(double));
 	double* hu2 = (double*)malloc(7*sizeof(double));
+	MALLOC_FAIL_CHECK(hu1);
+	MALLOC_FAIL_CHECK(hu2);
 
 	calc_hu_moment(hu1,mat1);
 	calc_hu_moment(hu2,mat2);
 
 	double res=0;
 	res = calc_similar_hu(hu1,hu2);
+
+	free(hu1);
+	free(hu2);
 	return res;
 }
 
-- 
2.43.0


From 0946b21762cf6f3de0f9edab6bbc69093e4ce23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 37/74] fix: k-means could run for ever, stopped before it
 converged, moved empty centres and leaked

---
 modules/algorithm/src/cluster.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 14977a3..402b5d8 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -7,6 +7,9 @@
 
 //----------------------------------private_function--------------------------
 
+//the most passes, as centres of whole pixels can come back to earlier ones
+#define K_MEANS_MAX_PASS 1000
+
 static int distance(POINT p, int i,int j)
 {
 	return pow((p.x-j),2) + pow((p.y-i),2);
@@ -37,8 +40,10 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	int cols = src->cols;
 
 	POINT* v2 = (POINT*)malloc(kind * sizeof(POINT)); 
+	MALLOC_FAIL_CHECK(v2);
 
 	int* num = (int*)malloc(kind * sizeof(int));	
+	MALLOC_FAIL_CHECK(num);
  
 	srand((unsigned)time(NULL));
 
@@ -55,7 +60,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 
 	unsigned char* data = (unsigned char*)mat->data;
 
-	while(1)
+	for(int pass=0; pass<K_MEANS_MAX_PASS; pass++)
 	{
 		int flag = 0;
 
@@ -88,7 +93,12 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 			v2[k].x = v2[k].x / num[k];
 		    v2[k].y = v2[k].y / num[k];
 			}
-			if(v2[k].x-v1[k].x > iter_threshold || v2[k].y-v1[k].y > iter_threshold)
+			else
+			{
+				v2[k].x = v1[k].x;
+				v2[k].y = v1[k].y;
+			}
+			if(abs(v2[k].x-v1[k].x) > iter_threshold || abs(v2[k].y-v1[k].y) > iter_threshold)
 				flag = 1;
 			v1[k].x = v2[k].x;
 			v1[k].y = v2[k].y;
@@ -101,4 +111,6 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	}
 	free(v2);
 	free(num);
+	if(mat != src)
+		delete_simple_mat(mat);
 }
-- 
2.43.0


From efbe91e4426453c1725c77d0352692ef37321988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 38/74] fix: smshow decided from uninitialised memory whether
 to paint and did not clean up on failure

---
 modules/highgui/src/smshow.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/highgui/src/smshow.c b/modules/highgui/src/smshow.c
index aadbc63..7f6869f 100644
--- a/modules/highgui/src/smshow.c
+++ b/modules/highgui/src/smshow.c
@@ -31,6 +31,7 @@ void smshow(const char* display_name, simple_mat mat)
 	if(image == NULL)
 	{
 		printf("Couldn't convert Mat to Surface.");
+		SDL_Quit();
 		return;
 	}
 	
@@ -63,6 +64,8 @@ void smshow(const char* display_name, simple_mat mat)
 	{
 		fprintf(stderr, "Couldn't set %dx%dx%d video mode: %s\n",
 				src.w, src.h, depth, SDL_GetError());
+		SDL_FreeSurface(image);
+		SDL_Quit();
 		return;
 	}
 
@@ -73,6 +76,7 @@ void smshow(const char* display_name, simple_mat mat)
 	/* Display the image */
 
 	done = 0;
+	dirty = 1;
 
 	while (!done)
 	{
-- 
2.43.0


From 944d96461ae0743c817fbb64330edfe08f759573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 39/74] fix: vector_init did not compile and kept old elements,
 vector_pop_back underflowed when empty

---
 modules/core/include/c_include/vector.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/core/include/c_include/vector.h b/modules/core/include/c_include/vector.h
index 00970b2..a09fd85 100644
--- a/modules/core/include/c_include/vector.h
+++ b/modules/core/include/c_include/vector.h
@@ -80,7 +80,8 @@
  */
 #define vector_pop_back(vec) \
 	do {                                              \
-		vector_set_size((vec), vector_size(vec) - 1); \
+		if(vector_size(vec) > 0)                      \
+			vector_set_size((vec), vector_size(vec) - 1); \
 	} while(0)
 
 /**
@@ -164,9 +165,9 @@ vector_set_size((vec), vector_size(vec) + 1); \
 
 #define vector_init(vec,value,size) \
 	do{\
-		if(!vec)                                      \
+		if(vec)                                       \
 		{                                             \
-			vector_free(vec)                          \
+			vector_free(vec);                         \
 		}                                             \
 		size_t __temp_iter = 0;                       \
 		if(size)                                      \
-- 
2.43.0


From ec2689983a5aeb99b623e44eb22d685aecc8dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 40/74] fix: read_spectrum_file reports a read error instead of
 returning a value that was cut

---
 modules/process/src/c_src/spectralprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 3255c93..5a8b598 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -126,9 +126,10 @@ float* read_spectrum_file(const char* sp_path, int length)
 	while (count < length && fscanf(fp, "%f", &spectrum[count]) == 1)
 		count++;
 
+	int read_error = ferror(fp);
 	fclose(fp);
 
-	if (count != length)
+	if (count != length || read_error != 0)
 	{
 		printf("spectrum file is damaged\n");
 		free(spectrum);
-- 
2.43.0


From a4b5863548cfec60a840bf385a5f99b862e4a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 41/74] fix: hyper_mat_cem passed its products in the wrong
 order and stored into the spectrum

---
 modules/algorithm/src/cem.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index 05cd054..c186704 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -51,9 +51,9 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	MALLOC_FAIL_CHECK(fir2);
 	MALLOC_FAIL_CHECK(fir3);
 
-	MulMatrix_float(fir1, invdata, spectral, bands, bands, 1);
-	MulMatrix_float(fir2, spectral, invdata, 1, bands, bands);
-	MulMatrix_float(fir3, fir2, spectral, 1, bands, 1);
+	MulMatrix_float(invdata, spectral, fir1, bands, bands, 1);
+	MulMatrix_float(spectral, invdata, fir2, 1, bands, bands);
+	MulMatrix_float(fir2, spectral, fir3, 1, bands, 1);
 
 	for(int i=0; i<bands; i++)
 		fir1[i] = fir1[i]/fir3[0];
@@ -61,7 +61,7 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	simple_mat res = create_simple_mat(lines, samples, data_type, 1);
 	float* res_data = (float*)res->data;
 
-	MulMatrix_float(res_data, t_data, fir1, samples*lines,bands, 1);
+	MulMatrix_float(t_data, fir1, res_data, samples*lines,bands, 1);
 
 	delete_hyper_mat(tmp_mat);
 	delete_simple_mat(src);
-- 
2.43.0


From c726c1338ff2c7ab690610b02593cdcaece7395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 42/74] fix: gray level statistics and entropy always refused
 and leaked the gray image

---
 modules/core/src/c_src/simplemat.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index d6706e1..30b81a9 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -381,7 +381,7 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 {
 	hypercv_assert(mat                  != NULL, "input mat cannot be NULL");
 	hypercv_assert(mat-> data_type      == 1,    "only use in unsigned char image");
-	hypercv_assert(sizeof(gray_statist) == 256,  "gray array error");
+	hypercv_assert(gray_statist         != NULL, "gray array error");
 
 	int rows     = mat->rows;
 	int cols     = mat->cols;
@@ -401,6 +401,9 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 
 	for(int i=0; i<rows*cols; i++)
 		gray_statist[data[i]]++;
+
+	if(tmp != mat)
+		delete_simple_mat(tmp);
 }
 
 
@@ -463,16 +466,6 @@ float simple_mat_entropy(simple_mat mat)
 
 	int rows = mat->rows;
 	int cols = mat->cols;
-	int channels = mat->channels;
-
-	simple_mat tmp ;
-
-	if(channels != 1)
-		tmp = sm_rgb2gray(mat,0);
-	else 
-		tmp = mat;
-
-	unsigned char* data = (unsigned char*)tmp->data;
 
 	float res =0.0;
 
-- 
2.43.0


From 95647dbca03628e78d0602e7f7d42bdced43feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 43/74] fix: HyMat accepted any format and cut ranges outside
 the cube

---
 modules/core/include/cxx_include/hypermat.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 856e7d7..9f45adc 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -133,7 +133,7 @@ namespace hypercv
 				_dataType == 13 ||
 				_dataType == 14 ||
 				_dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if(data)
 			release();
@@ -344,7 +344,7 @@ namespace hypercv
 				_dataType == 13 ||
 				_dataType == 14 ||
 				_dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if (empty() == 0)
 			release();
@@ -374,7 +374,7 @@ namespace hypercv
 
 	inline void HyMat::convertTo(int _format)
 	{
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 		
 		if(_format == format)
 			return;
@@ -491,6 +491,7 @@ namespace hypercv
 	inline HyMat HyMat::range(int startRow, int startCol, int startBand, int endRow, int endCol, int endBand)
 	{
 		hypercv_assert(startCol<endCol && startRow<endRow && startBand<endBand, "start col & start row & start band must < end col & end row & end band");
+		hypercv_assert(startCol >= 0 && startRow >= 0 && startBand >= 0 && endCol <= samples && endRow <= lines && endBand <= bands, "range must be inside the mat");
 
 		int newSamples = endCol - startCol;
 		int newLines = endRow - startRow;
-- 
2.43.0


From 9a1d85a8f04ce498f96af306bca3cf37408bf2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 44/74] fix: set_wavelet_base accepted unknown wave types

---
 modules/process/src/c_src/dwt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/dwt.c b/modules/process/src/c_src/dwt.c
index bd4988f..c3fa124 100644
--- a/modules/process/src/c_src/dwt.c
+++ b/modules/process/src/c_src/dwt.c
@@ -118,7 +118,7 @@ void wt_info_free(wt_info* wt_if)
 
 wavelet_base* set_wavelet_base(int wave_type)
 {
-	hypercv_assert(wave_type!=HYPERCV_WAVE_DB3||wave_type!=HYPERCV_WAVE_BIOR3_7,"ERROR WAVE TYPE")
+	hypercv_assert(wave_type==HYPERCV_WAVE_DB3||wave_type==HYPERCV_WAVE_BIOR3_7,"ERROR WAVE TYPE")
 	wavelet_base *wb;
 	wb = (wavelet_base*) calloc(1,sizeof(wavelet_base));
 	MALLOC_FAIL_CHECK(wb);
-- 
2.43.0


From 3933a4b01c63fe624f639daffdc78d17ac0aeb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 45/74] fix: positions in cubes of more than 2 GB no longer
 overflow in layout conversions and range cuts

---
 modules/process/src/c_src/imageprocess.c | 50 ++++++++++++------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index f1b8315..68d5485 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -99,7 +99,7 @@ hyper_mat bil2bsq(hyper_mat bil_mat)
 	char* bil_data = (char*)bil_mat -> data;
 	char* bsq_data = (char*)bsq_mat -> data;
 
-	unsigned int bil_index = 0, bsq_index = 0;
+	long int bil_index = 0, bsq_index = 0;
 
 	for (int k=0; k<bands; k++)
 	{
@@ -107,8 +107,8 @@ hyper_mat bil2bsq(hyper_mat bil_mat)
 		{
 			for (int j=0; j<samples; j++)
 			{
-				bil_index = (i*samples*bands + k*samples + j)*elem_size;
-				bsq_index = (k*samples*lines + i*samples + j)*elem_size;
+				bil_index = ((long int)i*samples*bands + (long int)k*samples + j)*elem_size;
+				bsq_index = ((long int)k*samples*lines + (long int)i*samples + j)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bsq_data[bsq_index + t] = bil_data[bil_index + t];
@@ -149,7 +149,7 @@ hyper_mat bil2bip(hyper_mat bil_mat)
 	char* bil_data = (char*)bil_mat -> data;
 	char* bip_data = (char*)bip_mat -> data;
 
-	unsigned int bil_index = 0, bip_index = 0;
+	long int bil_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -157,8 +157,8 @@ hyper_mat bil2bip(hyper_mat bil_mat)
 		{
 			for (int k=0; k<bands; k++)
 			{
-				bil_index = (i*samples*bands + k*samples + j)*elem_size;
-				bip_index = (i*samples*bands + j*bands + k)*elem_size;
+				bil_index = ((long int)i*samples*bands + (long int)k*samples + j)*elem_size;
+				bip_index = ((long int)i*samples*bands + (long int)j*bands + k)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bip_data[bip_index + t] = bil_data[bil_index + t];
@@ -199,7 +199,7 @@ hyper_mat bsq2bil(hyper_mat bsq_mat)
 	char* bsq_data = (char*)bsq_mat -> data;
 	char* bil_data = (char*)bil_mat -> data;
 
-	unsigned int bsq_index = 0, bil_index = 0;
+	long int bsq_index = 0, bil_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -207,8 +207,8 @@ hyper_mat bsq2bil(hyper_mat bsq_mat)
 		{
 			for (int j=0;j<samples; j++)
 			{
-				bsq_index = (k*samples*lines + i*samples + j)*elem_size;
-				bil_index = (i*samples*bands + k*samples + j)*elem_size;
+				bsq_index = ((long int)k*samples*lines + (long int)i*samples + j)*elem_size;
+				bil_index = ((long int)i*samples*bands + (long int)k*samples + j)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bil_data[bil_index + t] = bsq_data[bsq_index + t];
@@ -250,7 +250,7 @@ hyper_mat bsq2bip(hyper_mat bsq_mat)
 	char* bsq_data = (char*)bsq_mat -> data;
 	char* bip_data = (char*)bip_mat -> data;
 
-	unsigned int bsq_index = 0, bip_index = 0;
+	long int bsq_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -258,8 +258,8 @@ hyper_mat bsq2bip(hyper_mat bsq_mat)
 		{
 			for (int k=0; k<bands; k++)
 			{
-				bsq_index = (k*samples*lines + i*samples + j)*elem_size;
-				bip_index = (i*samples*bands + j*bands + k)*elem_size;
+				bsq_index = ((long int)k*samples*lines + (long int)i*samples + j)*elem_size;
+				bip_index = ((long int)i*samples*bands + (long int)j*bands + k)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bip_data[bip_index + t] = bsq_data[bsq_index + t];
@@ -300,7 +300,7 @@ hyper_mat bip2bsq(hyper_mat bip_mat)
 	char* bip_data = (char*)bip_mat -> data;
 	char* bsq_data = (char*)bsq_mat -> data;
 
-	unsigned int bsq_index = 0, bip_index = 0;
+	long int bsq_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -308,8 +308,8 @@ hyper_mat bip2bsq(hyper_mat bip_mat)
 		{
 			for (int k=0; k<bands; k++)
 			{
-				bsq_index = (k*samples*lines + i*samples + j)*elem_size;
-				bip_index = (i*samples*bands + j*bands + k)*elem_size;
+				bsq_index = ((long int)k*samples*lines + (long int)i*samples + j)*elem_size;
+				bip_index = ((long int)i*samples*bands + (long int)j*bands + k)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bsq_data[bsq_index + t] = bip_data[bip_index + t]  ;
@@ -348,7 +348,7 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 	char* bip_data = (char*)bip_mat -> data;
 	char* bil_data = (char*)bil_mat -> data;
 
-	unsigned int bil_index = 0, bip_index = 0;
+	long int bil_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -356,8 +356,8 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 		{
 			for (int k=0; k<bands; k++)
 			{
-				bil_index = (i*samples*bands + k*samples + j)*elem_size;
-				bip_index = (i*samples*bands + j*bands + k)*elem_size;
+				bil_index = ((long int)i*samples*bands + (long int)k*samples + j)*elem_size;
+				bip_index = ((long int)i*samples*bands + (long int)j*bands + k)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bil_data[bil_index + t] = bip_data[bip_index + t];
@@ -402,7 +402,7 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 	char* src_data = (char*)src_mat->data;
 	char* dst_data = (char*)dst_mat->data;
 
-	int src_index =0, dst_index =0;
+	long int src_index =0, dst_index =0;
 	int src_samples = src_mat -> samples;
 	int src_lines = src_mat -> lines;
 	int src_bands = src_mat -> bands;
@@ -415,8 +415,8 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 			{
 				for (int j = start_col; j < end_col; j++)
 				{
-					src_index = (i * src_samples * src_bands + k * src_samples + j) * elem_size;
-					dst_index = ((i - start_row) * samples * bands + (k - start_band) * samples + j - start_col) * elem_size;
+					src_index = ((long int)i * src_samples * src_bands + (long int)k * src_samples + j) * elem_size;
+					dst_index = ((long int)(i - start_row) * samples * bands + (long int)(k - start_band) * samples + j - start_col) * elem_size;
 
 					for (int t = 0; t < elem_size; t++)
 						dst_data[dst_index + t] = src_data[src_index + t];					
@@ -432,8 +432,8 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 			{
 				for (int k = start_band; k < end_band; k++)
 				{
-					src_index = (i * src_samples * src_bands + j * src_bands + k) * elem_size;
-					dst_index = ((i - start_row) * samples * bands + (j - start_col) * bands + k - start_band) * elem_size;
+					src_index = ((long int)i * src_samples * src_bands + (long int)j * src_bands + k) * elem_size;
+					dst_index = ((long int)(i - start_row) * samples * bands + (long int)(j - start_col) * bands + k - start_band) * elem_size;
 
 					for (int t = 0; t < elem_size; t++)
 						dst_data[dst_index + t] = src_data[src_index + t];					
@@ -449,8 +449,8 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 			{
 				for (int j = start_col; j < end_col; j++)
 				{
-					src_index = (k * src_samples * src_lines + i * src_samples + j) * elem_size;
-					dst_index = ((k - start_band) * samples * lines + (i - start_row) * samples + j - start_col) * elem_size;
+					src_index = ((long int)k * src_samples * src_lines + (long int)i * src_samples + j) * elem_size;
+					dst_index = ((long int)(k - start_band) * samples * lines + (long int)(i - start_row) * samples + j - start_col) * elem_size;
 
 					for (int t = 0; t < elem_size; t++)
 						dst_data[dst_index + t] = src_data[src_index + t];					
-- 
2.43.0


From 639193f795996baf37fed035a29cf169675407f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 46/74] fix: positions in HyMat cubes of more than 2 GB no
 longer overflow in layout conversions and range cuts

---
 modules/core/include/cxx_include/hypermat.hpp | 38 +++++++++----------
 modules/core/src/cxx_src/hypermat.cpp         | 24 ++++++------
 2 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 9f45adc..10f36c5 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -393,33 +393,33 @@ namespace hypercv
 				{
 					if(format == HYPERCV_BIL && _format == HYPERCV_BIP)
 					{
-						srcIndex = (i*samples*bands + k*samples + j)*elemSize;
-					    dstIndex = (i*samples*bands + j*bands + k)*elemSize;
+						srcIndex = ((long int)i*samples*bands + (long int)k*samples + j)*elemSize;
+					    dstIndex = ((long int)i*samples*bands + (long int)j*bands + k)*elemSize;
 					}
 					else if(format == HYPERCV_BIL && _format == HYPERCV_BSQ)
 					{
-						srcIndex = (i*samples*bands + k*samples + j)*elemSize;
-						dstIndex = (k*samples*lines + i*samples + j)*elemSize;
+						srcIndex = ((long int)i*samples*bands + (long int)k*samples + j)*elemSize;
+						dstIndex = ((long int)k*samples*lines + (long int)i*samples + j)*elemSize;
 					}
 					else if(format == HYPERCV_BSQ && _format == HYPERCV_BIL)
 					{
-						dstIndex = (i*samples*bands + k*samples + j)*elemSize;
-						srcIndex = (k*samples*lines + i*samples + j)*elemSize;
+						dstIndex = ((long int)i*samples*bands + (long int)k*samples + j)*elemSize;
+						srcIndex = ((long int)k*samples*lines + (long int)i*samples + j)*elemSize;
 					}
 					else if(format == HYPERCV_BSQ && _format == HYPERCV_BIP)
 					{
-						dstIndex = (i*samples*bands + j*bands + k)*elemSize;
-						srcIndex = (k*samples*lines + i*samples + j)*elemSize;
+						dstIndex = ((long int)i*samples*bands + (long int)j*bands + k)*elemSize;
+						srcIndex = ((long int)k*samples*lines + (long int)i*samples + j)*elemSize;
 					}
 					else if(format == HYPERCV_BIP && _format == HYPERCV_BSQ)
 					{
-						srcIndex = (i*samples*bands + j*bands + k)*elemSize;
-						dstIndex = (k*samples*lines + i*samples + j)*elemSize;
+						srcIndex = ((long int)i*samples*bands + (long int)j*bands + k)*elemSize;
+						dstIndex = ((long int)k*samples*lines + (long int)i*samples + j)*elemSize;
 					}
 					else if(format == HYPERCV_BIP && _format == HYPERCV_BIL)
 					{
-						srcIndex = (i*samples*bands + j*bands + k)*elemSize;
-						dstIndex = (i*samples*bands + k*samples + j)*elemSize;
+						srcIndex = ((long int)i*samples*bands + (long int)j*bands + k)*elemSize;
+						dstIndex = ((long int)i*samples*bands + (long int)k*samples + j)*elemSize;
 					}
 
 					for (int t=0; t<elemSize; t++)
@@ -502,7 +502,7 @@ namespace hypercv
 		char* srcData = (char*)data;
 		char* dstData = (char*)dst.data;
 
-		int srcIndex =0, dstIndex =0;
+		long int srcIndex =0, dstIndex =0;
 
 		switch(format)
 		{
@@ -514,8 +514,8 @@ namespace hypercv
 						{
 							for (int j = startCol; j < endCol; j++)
 							{
-								srcIndex = (i * samples * bands + k * samples + j) * elemSize;
-								dstIndex = ((i - startRow) * newSamples * newBands + (k - startBand) * newSamples + j - startCol) * elemSize;
+								srcIndex = ((long int)i * samples * bands + (long int)k * samples + j) * elemSize;
+								dstIndex = ((long int)(i - startRow) * newSamples * newBands + (long int)(k - startBand) * newSamples + j - startCol) * elemSize;
 
 								for (int t = 0; t < elemSize; t++)
 									dstData[dstIndex + t] = srcData[srcIndex + t];					
@@ -533,8 +533,8 @@ namespace hypercv
 						{
 							for (int k = startBand; k < endBand; k++)
 							{
-								srcIndex = (i * samples * bands + j * bands + k) * elemSize;
-								dstIndex = ((i - startRow) * newSamples * newBands + (j - startCol) * newBands + k - startBand) * elemSize;
+								srcIndex = ((long int)i * samples * bands + (long int)j * bands + k) * elemSize;
+								dstIndex = ((long int)(i - startRow) * newSamples * newBands + (long int)(j - startCol) * newBands + k - startBand) * elemSize;
 
 								for (int t = 0; t < elemSize; t++)
 									dstData[dstIndex + t] = srcData[srcIndex + t];					
@@ -551,8 +551,8 @@ namespace hypercv
 						{
 							for (int j = startCol; j < endCol; j++)
 							{
-								srcIndex = (k * samples * lines + i * samples + j) * elemSize;
-								dstIndex = ((k - startBand) * newSamples * newLines + (i - startRow) * newSamples + j - startCol) * elemSize;
+								srcIndex = ((long int)k * samples * lines + (long int)i * samples + j) * elemSize;
+								dstIndex = ((long int)(k - startBand) * newSamples * newLines + (long int)(i - startRow) * newSamples + j - startCol) * elemSize;
 
 								for (int t = 0; t < elemSize; t++)
 									dstData[dstIndex + t] = srcData[srcIndex + t];					
diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 75e6073..18542b6 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -182,8 +182,8 @@ namespace hypercv
 			{
 				for (int j=0; j<samples; j++)
 				{
-					bilIndex = (i*samples*bands + k*samples + j)*elemSize;
-					bsqIndex = (k*samples*lines + i*samples + j)*elemSize;
+					bilIndex = ((long int)i*samples*bands + (long int)k*samples + j)*elemSize;
+					bsqIndex = ((long int)k*samples*lines + (long int)i*samples + j)*elemSize;
 
 					for (int t=0; t<elemSize; t++)
 						dstData[bsqIndex + t] = matData[bilIndex + t];
@@ -223,8 +223,8 @@ namespace hypercv
 			{
 				for (int k=0; k<bands; k++)
 				{
-					bilIndex = (i*samples*bands + k*samples + j)*elemSize;
-					bipIndex = (i*samples*bands + j*bands + k)*elemSize;
+					bilIndex = ((long int)i*samples*bands + (long int)k*samples + j)*elemSize;
+					bipIndex = ((long int)i*samples*bands + (long int)j*bands + k)*elemSize;
 
 					for (int t=0; t<elemSize; t++)
 						dstData[bipIndex + t] = matData[bilIndex + t];
@@ -265,8 +265,8 @@ namespace hypercv
 			{
 				for (int j=0;j<samples; j++)
 				{
-					bsqIndex = (k*samples*lines + i*samples + j)*elemSize;
-					bilIndex = (i*samples*bands + k*samples + j)*elemSize;
+					bsqIndex = ((long int)k*samples*lines + (long int)i*samples + j)*elemSize;
+					bilIndex = ((long int)i*samples*bands + (long int)k*samples + j)*elemSize;
 
 					for (int t=0; t<elemSize; t++)
 						dstData[bilIndex + t] = matData[bsqIndex + t];
@@ -309,8 +309,8 @@ namespace hypercv
 			{
 				for (int k=0; k<bands; k++)
 				{
-					bsqIndex = (k*samples*lines + i*samples + j)*elemSize;
-				    bipIndex = (i*samples*bands + j*bands + k)*elemSize;
+					bsqIndex = ((long int)k*samples*lines + (long int)i*samples + j)*elemSize;
+				    bipIndex = ((long int)i*samples*bands + (long int)j*bands + k)*elemSize;
 
 					for (int t=0; t<elemSize; t++)
 						dstData[bipIndex + t] = matData[bsqIndex + t];
@@ -352,8 +352,8 @@ namespace hypercv
 			{
 				for (int k=0; k<bands; k++)
 				{
-			        bsqIndex = (k*samples*lines + i*samples + j)*elemSize;
-					bipIndex = (i*samples*bands + j*bands + k)*elemSize;
+			        bsqIndex = ((long int)k*samples*lines + (long int)i*samples + j)*elemSize;
+					bipIndex = ((long int)i*samples*bands + (long int)j*bands + k)*elemSize;
 
 					for (int t=0; t<elemSize; t++)
 						dstData[bsqIndex + t] = matData[bipIndex + t];
@@ -395,8 +395,8 @@ namespace hypercv
 			{
 				for (int k=0; k<bands; k++)
 				{
-					bilIndex = (i*samples*bands + k*samples + j)*elemSize;
-				    bipIndex = (i*samples*bands + j*bands + k)*elemSize;
+					bilIndex = ((long int)i*samples*bands + (long int)k*samples + j)*elemSize;
+				    bipIndex = ((long int)i*samples*bands + (long int)j*bands + k)*elemSize;
 
 					for (int t=0; t<elemSize; t++)
 						dstData[bilIndex + t] = matData[bipIndex + t];
-- 
2.43.0


From 208abd38555b4862ae326b6f40da0220f3a5e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 47/74] fix: bands, spliced parts and reshaped cubes of more
 than 2 GB are copied from and to the right place

---
 modules/process/src/c_src/imageprocess.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 68d5485..6537406 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -486,14 +486,14 @@ simple_mat reshape_hypermat_2_simplemat(hyper_mat src_mat, int dst_rows, int dst
 	int src_lines = src_mat -> lines;
 	int src_bands = src_mat -> bands;
 
-	int src_size = src_samples * src_lines * src_bands;
-	int dst_size = dst_rows * dst_cols ;
+	long int src_size = (long int)src_samples * src_lines * src_bands;
+	long int dst_size = (long int)dst_rows * dst_cols ;
 
 	hypercv_assert(src_size == dst_size, "reshape could not change the size");
 
 	simple_mat dst_mat = create_simple_mat(dst_rows, dst_cols, src_mat->data_type,1);
 
-	memcpy(dst_mat->data, src_mat->data, dst_rows * dst_cols * dst_mat->elem_size);
+	memcpy(dst_mat->data, src_mat->data, dst_size * dst_mat->elem_size);
 
 	return dst_mat;
 }
@@ -520,9 +520,9 @@ void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 	dst_mat -> data_type = src_mat -> data_type;
 	dst_mat -> elem_size = elemsize;
     
-	char* data = (char*)src_mat->data+(samples*lines*(band-1)*elemsize);
+	char* data = (char*)src_mat->data+((long int)samples*lines*(band-1)*elemsize);
 
-	memcpy((char*)dst_mat->data,(char*)data,samples*lines*elemsize);
+	memcpy((char*)dst_mat->data,(char*)data,(long int)samples*lines*elemsize);
 }
 
 
@@ -544,10 +544,10 @@ void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 	hypercv_assert(src_mat->data_type == dst_mat->data_type && src_mat->channels == 1,"simple mat type unequal to hyper mat");
 
 	long int elemsize = get_elemsize(dst_mat->data_type);
-	char* dst = (char*)dst_mat->data + samples*lines*(band-1)*elemsize;
+	char* dst = (char*)dst_mat->data + (long int)samples*lines*(band-1)*elemsize;
 	char* src = (char*)src_mat->data;
 
-	memcpy(dst,src,samples*lines*elemsize);
+	memcpy(dst,src,(long int)samples*lines*elemsize);
 }
 
 /**
@@ -661,9 +661,9 @@ void hyper_mat_splicing(hyper_mat mat, hyper_mat part, int start_index)
 	int elemsize = get_elemsize(mat->data_type); 
 	hypercv_assert(start_index >= 0 && start_index + (long int)part->samples*part->lines*part->bands <= (long int)mat->samples*mat->lines*mat->bands,"part must be inside the hyper mat");
 
-	unsigned char* mat_data = (unsigned char*)mat->data+start_index*elemsize;
+	unsigned char* mat_data = (unsigned char*)mat->data+(long int)start_index*elemsize;
 	unsigned char* part_data= (unsigned char*)part->data;
 
-	memcpy(mat_data, part_data,part->samples*part->lines*part->bands*elemsize);
+	memcpy(mat_data, part_data,(long int)part->samples*part->lines*part->bands*elemsize);
 }
 
-- 
2.43.0


From a2ae0e57d3016f0f4a2e485b98f2d71d308261a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 48/74] fix: element type conversions handle cubes of more than
 2^31 elements

---
 modules/process/src/c_src/datatypechange.c | 44 +++++++++++-----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index d345fd9..cd6b7c5 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -24,9 +24,9 @@ hyper_mat hyper_mat_uchar2short(hyper_mat uc_mat)
 	short * data = (short*)dst->data;
 	unsigned char* uc_data = (unsigned char*)uc_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=uc_data[i];
 
 	if(uc_mat->wavelength != NULL)
@@ -53,9 +53,9 @@ hyper_mat hyper_mat_uchar2int(hyper_mat uc_mat)
 	int* data = (int*)dst->data;
 	unsigned char* uc_data = (unsigned char*)uc_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=uc_data[i];
 	
 	if(uc_mat->wavelength != NULL)
@@ -82,9 +82,9 @@ hyper_mat hyper_mat_uchar2float(hyper_mat uc_mat)
 	float* data = (float*)dst->data;
 	unsigned char* uc_data = (unsigned char*)uc_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=uc_data[i]*1.0;
 	
 	if(uc_mat->wavelength != NULL)
@@ -111,9 +111,9 @@ hyper_mat hyper_mat_uchar2ushort(hyper_mat uc_mat)
 	unsigned short* data = (unsigned short*)dst->data;
 	unsigned char*  uc_data = (unsigned char*)uc_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=uc_data[i];
 	
 	if(uc_mat->wavelength != NULL)
@@ -140,9 +140,9 @@ hyper_mat hyper_mat_float2int(hyper_mat f_mat)
 	int * data = dst->data;
 	float* fdata = f_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=HYPERCV_ROUND(fdata[i]);
 	
 	if(f_mat->wavelength != NULL)
@@ -168,8 +168,8 @@ hyper_mat hyper_mat_float2char(hyper_mat f_mat)
 	char* data = dst->data;
 	float* fdata = f_mat->data;
 	int tmp = 0;
-	int datasize = samples*lines*bands;
-	for(int i=0;i<datasize;i++)
+	long int datasize = (long int)samples*lines*bands;
+	for(long int i=0;i<datasize;i++)
 	{
 		tmp = HYPERCV_ROUND(fdata[i]);
 
@@ -205,9 +205,9 @@ hyper_mat hyper_mat_float2short(hyper_mat f_mat)
 	short* data = dst->data;
 	float* fdata = f_mat->data;
 	int tmp = 0;
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i] =(short)HYPERCV_ROUND(fdata[i]);
 		
 	if(f_mat->wavelength != NULL)
@@ -233,8 +233,8 @@ hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
 	unsigned short* data = dst->data;
 	float* fdata = f_mat->data;
 	int tmp = 0;
-	int datasize = samples*lines*bands;
-	for(int i=0;i<datasize;i++)
+	long int datasize = (long int)samples*lines*bands;
+	for(long int i=0;i<datasize;i++)
 	{
 		tmp = HYPERCV_ROUND(fdata[i]);
 		if(tmp<0)
@@ -266,8 +266,8 @@ hyper_mat hyper_mat_float2uchar(hyper_mat f_mat)
 	unsigned char* data = dst->data;
 	float* fdata = f_mat->data;
 	int tmp = 0;
-	int datasize = samples*lines*bands;
-	for(int i=0;i<datasize;i++)
+	long int datasize = (long int)samples*lines*bands;
+	for(long int i=0;i<datasize;i++)
 	{
 		tmp = HYPERCV_ROUND(fdata[i]);
 
@@ -303,8 +303,8 @@ hyper_mat hyper_mat_float2uint(hyper_mat f_mat)
 	unsigned int * data = dst->data;
 	float* fdata = f_mat->data;
 	int tmp = 0;
-	int datasize = samples*lines*bands;
-	for(int i=0;i<datasize;i++)
+	long int datasize = (long int)samples*lines*bands;
+	for(long int i=0;i<datasize;i++)
 	{
 		tmp = HYPERCV_ROUND(fdata[i]);
 
@@ -342,9 +342,9 @@ hyper_mat hyper_mat_ushort2float(hyper_mat us_mat)
 	float* fdata = dst->data;
 
 	int tmp = 0;
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 	{
 		fdata[i] = usdata[i]*1.0;
 	}
-- 
2.43.0


From b162bb2ae99a39399395bbfc59ae1a7b31d9afa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 49/74] fix: sizes whose product does not fit the address space
 are refused instead of wrapping to a small object

---
 modules/core/include/cxx_include/hypermat.hpp | 2 ++
 modules/core/src/c_src/hypermat.c             | 2 ++
 modules/core/src/c_src/simplemat.c            | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 10f36c5..a4ac6e8 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -6,6 +6,7 @@
 #include "type.hpp"
 
 #include <errno.h>
+#include <stdint.h>
 
 #if gdal_switch 
 #include "gdal_priv.h"
@@ -134,6 +135,7 @@ namespace hypercv
 				_dataType == 14 ||
 				_dataType == 15 , " data type error");
 		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_lines <= PTRDIFF_MAX / _samples / _bands / get_elemsize(_dataType), "HyMat is too large");
 
 		if(data)
 			release();
diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index b603422..c7a46aa 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -244,6 +244,7 @@ hyper_mat create_hyper_mat_with_data(const int samples, const int lines, const i
 	int elem_size = get_elemsize(data_type);
     
 	hypercv_assert(elem_size > 0, "unknown data type of hyper mat");
+	hypercv_assert(lines <= PTRDIFF_MAX / 2 / samples / bands / elem_size, "hyper mat is too large");
 	long int mat_data_size = (long int)samples * lines * bands * elem_size;
 	long int wave_data_size = (long int)bands * sizeof(float);
 
@@ -368,6 +369,7 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 
 	int elem_size = get_elemsize(data_type);
 	hypercv_assert(elem_size > 0, "unknown data type of hyper mat");
+	hypercv_assert(lines <= PTRDIFF_MAX / 2 / samples / bands / elem_size, "hyper mat is too large");
 	long int data_size = (long int)samples * lines * bands;
 
 	void* data = (void *)malloc(data_size * elem_size);
diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 30b81a9..2a5f900 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -37,6 +37,7 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 	if (data == NULL)
 	{
 		hypercv_assert(elem_size > 0 && channels > 0, "unknown data type or channels of simple mat");
+		hypercv_assert(rows <= PTRDIFF_MAX / 2 / cols / channels / elem_size, "simple mat is too large");
 		data_size = (long int)rows * cols * elem_size * channels; 
 		memneeded += data_size;
 	}
@@ -79,6 +80,7 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 
 	int elem_size = get_elemsize(data_type);
 	hypercv_assert(rows > 0 && cols > 0 && elem_size > 0 && channels > 0, "unknown size or data type of simple mat");
+	hypercv_assert(rows <= PTRDIFF_MAX / 2 / cols / channels / elem_size, "simple mat is too large");
 	long int data_size = (long int)rows * cols * channels;
 	void* data = (void *)malloc(data_size * elem_size);
 	MALLOC_FAIL_CHECK(data);
-- 
2.43.0


From 6a50d6b2e0fd8f732a68d78dfdaf7086d015773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 50/74] fix: rotation of cubes of more than 2 GB copies pixels
 from and to the right place

---
 modules/process/src/c_src/GeometricTransformation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 7f5e028..dfdcd37 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -210,8 +210,8 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 			int y = j * c - i * s + dj;
 			if(x < 0 || x >= height || y < 0 || y >= width)
 				continue;
-			int dstOft = (x * width + y) * mat->bands * elem_size;
-			int srcOft = (i * mat->samples + j) * mat->bands * elem_size;
+			long int dstOft = ((long int)x * width + y) * mat->bands * elem_size;
+			long int srcOft = ((long int)i * mat->samples + j) * mat->bands * elem_size;
 			unsigned char* src = src_data + srcOft;
 			unsigned char* dst = dst_data + dstOft;
 			memcpy(dst,src,mat->bands*elem_size);
-- 
2.43.0


From fb288a41c6115a7364b0e5a210c2b335ffb2dd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 51/74] fix: simple_mat_float2uchar handles images of more than
 2^31 elements

---
 modules/process/src/c_src/datatypechange.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index cd6b7c5..c4ed149 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -377,7 +377,7 @@ simple_mat simple_mat_float2uchar(simple_mat src)
 	   for(int j=0;j<cols;j++)
 	   maxpix = maxpix>src_data[i*cols+j]?maxpix:src_data[i*cols+j];
 	   */
-	for(int i=0;i<rows*cols*cn;i++)
+	for(long int i=0;i<(long int)rows*cols*cn;i++)
 	{
 		dst_data[i] = HYPERCV_ROUND(src_data[i])<=255?HYPERCV_ROUND(src_data[i]):255;
 		dst_data[i] = dst_data[i]>=0?dst_data[i]:0;
-- 
2.43.0


From 99a99f6c040911e33892718da2fb7233ef47326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 52/74] fix: k-means sums and squared distances wrap for large
 images

---
 modules/algorithm/src/cluster.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 402b5d8..85083f5 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -10,7 +10,14 @@
 //the most passes, as centres of whole pixels can come back to earlier ones
 #define K_MEANS_MAX_PASS 1000
 
-static int distance(POINT p, int i,int j)
+//the sum of many points does not fit a POINT
+typedef struct
+{
+	long int x;
+	long int y;
+}POINT_SUM;
+
+static long int distance(POINT p, int i,int j)
 {
 	return pow((p.x-j),2) + pow((p.y-i),2);
 }
@@ -39,7 +46,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	int rows = src->rows;
 	int cols = src->cols;
 
-	POINT* v2 = (POINT*)malloc(kind * sizeof(POINT)); 
+	POINT_SUM* v2 = (POINT_SUM*)malloc(kind * sizeof(POINT_SUM)); 
 	MALLOC_FAIL_CHECK(v2);
 
 	int* num = (int*)malloc(kind * sizeof(int));	
@@ -68,10 +75,10 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 		{
 			for(int j=0; j<cols; j++)
 			{
-				if(data[i*cols+j] != 0)
+				if(data[(long int)i*cols+j] != 0)
 				{
 					int min_index = 0;
-					int min_distance = rows*rows+cols*cols;
+					long int min_distance = (long int)rows*rows+(long int)cols*cols;
 					for(int k=0; k<kind; k++)
 					{
 						if(distance(v1[k], i, j) < min_distance)
-- 
2.43.0


From 00493b887b547482af20b5732734ade899887e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 53/74] fix: median and mean blur use the whole window and
 leave no pixel unset

---
 modules/process/src/c_src/filter.c | 51 ++++++++++++++++++------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 7760a57..3c25bec 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -11,19 +11,19 @@
 /////////////////////////////////////////////////////////////////////////
 //____________________private function________________________
 
-static void swap(unsigned char a,unsigned char b)
+static void swap(unsigned char* a,unsigned char* b)
 {
-	unsigned char c = a;
-	a = b;
-	b = c;
+	unsigned char c = *a;
+	*a = *b;
+	*b = c;
 }
 
 static unsigned char median_member(unsigned char* array,int size)
 {
-	for(int gap = size/2; gap++; gap/=2)
+	for(int gap = size/2; gap>0; gap/=2)
 		for(int i=gap; i<size; i++)
 			for(int j=i-gap; j>=0 && array[j]>array[j+gap]; j-=gap)
-				swap(array[j],array[j+gap]);
+				swap(&array[j],&array[j+gap]);
 	return array[size/2]; 
 }
 
@@ -141,16 +141,25 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
  **/
 void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
-	hypercv_assert(size%2==1,"size should be odd number");
+	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
+	hypercv_assert(src_mat->data_type == 1 && src_mat->channels == 1,"only use with gray image of unsigned char");
+	hypercv_assert(dst_mat->data_type == 1 && dst_mat->channels == 1 && dst_mat->rows == src_mat->rows && dst_mat->cols == src_mat->cols,"dst mat error");
+	hypercv_assert(size>0&&size%2==1,"size should be odd number");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
-	int data_type = src_mat->data_type;
-	int channels = src_mat->channels;
 
 	unsigned char* src_data = (unsigned char*) src_mat->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat->data;
-	unsigned char* arr = (unsigned char*) malloc(size*size*sizeof(char));
+
+	//a window larger than the image fits nowhere in it.
+	if(size>rows||size>cols)
+	{
+		memmove(dst_data,src_data,(long)rows*cols);
+		return;
+	}
+
+	unsigned char* arr = (unsigned char*) malloc((long)size*size*sizeof(char));
+	MALLOC_FAIL_CHECK(arr);
 
 	for(int i=0;i<rows;i++)
 	{
@@ -161,12 +170,14 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 				for(int m = -size/2;m<=size/2;m++)
 					for(int n = -size/2; n<=size/2;n++)
 						arr[(m+size/2)*size+n+size/2] = src_data[(i+m)*cols+j+n];
-				dst_data[i*cols+j] = median_member(arr,size); 
+				dst_data[i*cols+j] = median_member(arr,size*size); 
 			}
 			else 
 				dst_data[i*cols+j] = src_data[i*cols+j];
 		}
 	}
+
+	free(arr);
 }
 
 /**
@@ -177,28 +188,28 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
  **/
 void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
+	hypercv_assert(src_mat->data_type == 1 && src_mat->channels == 1,"only use with gray image of unsigned char");
+	hypercv_assert(dst_mat->data_type == 1 && dst_mat->channels == 1 && dst_mat->rows == src_mat->rows && dst_mat->cols == src_mat->cols,"dst mat error");
+	hypercv_assert(size>0,"size should be positive number");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
-	int data_type = src_mat->data_type;
-	int channels = src_mat->channels;
 
 	unsigned char* src_data = (unsigned char*) src_mat->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat->data;
-	unsigned char* arr = (unsigned char*) malloc(size*size*sizeof(char));
 
 	for(int i=0;i<rows;i++)
 	{
 		for(int j=0;j<cols;j++)
 		{
 		    int sum=0,num=0;
-			for(int m = -size/2;m<size/2;m++)
+			for(int m = -(size/2);m<size-size/2;m++)
 			{
-				for(int n = -size/2; n<size/2;n++)
+				for(int n = -(size/2); n<size-size/2;n++)
 				{
-					if((i+m)>=0&&(i+m)<rows&&(j+m)>=0&&(j+m)<cols)
+					if((i+m)>=0&&(i+m)<rows&&(j+n)>=0&&(j+n)<cols)
 					{
-						sum+= src_data[(i+m)*cols+j+m];
+						sum+= src_data[(i+m)*cols+j+n];
 						num++;	 
 					}
 
-- 
2.43.0


From 10592c752b3d34f2628448dddd565c8c478dd6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 54/74] fix: hypercv_create_orbit writes through an
 uninitialised pointer

---
 modules/satellite/src/satellite_orbit.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/satellite/src/satellite_orbit.c b/modules/satellite/src/satellite_orbit.c
index 7ee8954..7965717 100644
--- a/modules/satellite/src/satellite_orbit.c
+++ b/modules/satellite/src/satellite_orbit.c
@@ -43,7 +43,8 @@ sat_orbit hypercv_create_orbit(long double as,      // 轨道长半轴
 		long double cic,
 		long double omegadot)
 {
-	sat_orbit orb;
+	sat_orbit orb = (sat_orbit)malloc(sizeof(SATELLITE_ORBIT));
+	MALLOC_FAIL_CHECK(orb);
 	orb->as = as;
 	orb->es = es;
 	orb->omega = omega;
@@ -65,8 +66,10 @@ sat_orbit hypercv_create_orbit(long double as,      // 轨道长半轴
 	orb->n0 = sqrt(bGM84 / (as*as*as));
 	orb->n = orb->n0 + orb->delta_n;
 
+	orb->tk = orb->t - orb->toe;
 	orb->Mk = orb->M0 + orb->n*orb->tk;
 
+	orb->E = orb->Mk;
 	for (int i = 0; i < 10; i++)
 		orb->E = orb->Mk + orb->es*sin(orb->E);
 
-- 
2.43.0


From fa6270276572334a58b7e786680add28482ed461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 55/74] fix: part, transpose and addition functions check for
 NULL and element types

---
 modules/process/src/c_src/imageprocess.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 6537406..dc92edf 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -387,6 +387,7 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 **/
 hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, int start_band, int end_row, int end_col, int end_band)
 {
+	hypercv_assert(src_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(start_col<end_col && start_row<end_row && start_band<end_band, "start col & start row & start band must < end col & end row & end band");
 	hypercv_assert(start_col>=0 && start_row>=0 && start_band>=0 && end_col<=src_mat->samples && end_row<=src_mat->lines && end_band<=src_mat->bands, "range must be inside the hyper mat");
 
@@ -481,6 +482,7 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 **/
 simple_mat reshape_hypermat_2_simplemat(hyper_mat src_mat, int dst_rows, int dst_cols)
 {
+	hypercv_assert(src_mat != NULL, "input mat cannot be NULL");
 
 	int src_samples = src_mat -> samples;
 	int src_lines = src_mat -> lines;
@@ -506,6 +508,7 @@ simple_mat reshape_hypermat_2_simplemat(hyper_mat src_mat, int dst_rows, int dst
 **/
 void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 {
+	hypercv_assert(src_mat != NULL && dst_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(cmpstr(src_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
 	int samples,lines;
 	samples = src_mat -> samples;
@@ -534,6 +537,7 @@ void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 **/
 void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 {
+	hypercv_assert(dst_mat != NULL && src_mat != NULL, "input mat cannot be NULL");
 	int samples = dst_mat->samples;
 	int lines = dst_mat->lines;
 	int bands = dst_mat->bands;
@@ -557,6 +561,7 @@ void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 **/
 void simple_mat_transport(simple_mat res,simple_mat src)
 {
+	hypercv_assert(res != NULL && src != NULL, "input mat cannot be NULL");
 	int rows = res->rows;
 	int cols = res->cols;
 	
@@ -579,6 +584,7 @@ void simple_mat_transport(simple_mat res,simple_mat src)
 void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_mat)
 {
 	hypercv_assert(mat1!=NULL&&mat2!=NULL&&dst_mat!=NULL,"input mat cannot be empty");
+	hypercv_assert(mat1->data_type == 1 && mat2->data_type == 1 && dst_mat->data_type == 1, "input mat data type error");
 	hypercv_assert(mat1->channels == mat2->channels,"input mat channels error");
 	
 	int rows,cols;
@@ -611,6 +617,7 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_mat)
 {
 	hypercv_assert(mat1!=NULL&&mat2!=NULL&&dst_mat!=NULL,"input mat cannot be empty");
+	hypercv_assert(mat1->data_type == 4 && mat2->data_type == 4 && dst_mat->data_type == 4, "input mat data type error");
 	hypercv_assert(mat1->channels == mat2->channels,"input mat channels error");
 
 	int rows,cols;
@@ -641,6 +648,7 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 
 void simple_mat_log(simple_mat src_mat, simple_mat dst_mat)
 {
+	hypercv_assert(src_mat != NULL && dst_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(src_mat->data_type==4&&dst_mat->data_type == 4 , "input mat must be float mat");
 	hypercv_assert(src_mat->rows == dst_mat->rows && src_mat->cols == dst_mat->cols, "src mat size == dst_mat size");
 
@@ -656,6 +664,7 @@ void simple_mat_log(simple_mat src_mat, simple_mat dst_mat)
 
 void hyper_mat_splicing(hyper_mat mat, hyper_mat part, int start_index)
 {
+	hypercv_assert(mat != NULL && part != NULL, "input mat cannot be NULL");
 	hypercv_assert(mat->data_type == part->data_type,"data type error");
 
 	int elemsize = get_elemsize(mat->data_type); 
-- 
2.43.0


From 40bc09a4afac9b57117933c33a20b24dd0ad6a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 56/74] fix: cube type conversions refuse a NULL cube

---
 modules/process/src/c_src/datatypechange.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index c4ed149..c72cc9d 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -13,6 +13,7 @@
  **/
 hyper_mat hyper_mat_uchar2short(hyper_mat uc_mat)
 {
+	hypercv_assert(uc_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(uc_mat->data_type == 1,"intput mat datatype == unsigned char");
 
 	int samples = uc_mat->samples;
@@ -42,6 +43,7 @@ hyper_mat hyper_mat_uchar2short(hyper_mat uc_mat)
  **/
 hyper_mat hyper_mat_uchar2int(hyper_mat uc_mat)
 {
+	hypercv_assert(uc_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(uc_mat->data_type == 1,"intput mat datatype == unsigned char");
 
 	int samples = uc_mat->samples;
@@ -71,6 +73,7 @@ hyper_mat hyper_mat_uchar2int(hyper_mat uc_mat)
  **/
 hyper_mat hyper_mat_uchar2float(hyper_mat uc_mat)
 {
+	hypercv_assert(uc_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(uc_mat->data_type == 1,"intput mat datatype == unsigned char");
 
 	int samples = uc_mat->samples;
@@ -100,6 +103,7 @@ hyper_mat hyper_mat_uchar2float(hyper_mat uc_mat)
  **/
 hyper_mat hyper_mat_uchar2ushort(hyper_mat uc_mat)
 {
+	hypercv_assert(uc_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(uc_mat->data_type == 1,"intput mat datatype == unsigned char");
 
 	int samples = uc_mat->samples;
@@ -130,6 +134,7 @@ hyper_mat hyper_mat_uchar2ushort(hyper_mat uc_mat)
 //todo write all brief and fix order data type
 hyper_mat hyper_mat_float2int(hyper_mat f_mat)
 {
+	hypercv_assert(f_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(f_mat->data_type == 4,"intput mat datatype == float");
 	int samples = f_mat->samples;
 	int lines = f_mat->lines;
@@ -158,6 +163,7 @@ hyper_mat hyper_mat_float2int(hyper_mat f_mat)
  **/
 hyper_mat hyper_mat_float2char(hyper_mat f_mat)
 {
+	hypercv_assert(f_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(f_mat->data_type == 4,"intput mat datatype == float")
 		int samples = f_mat->samples;
 	int lines = f_mat->lines;
@@ -195,6 +201,7 @@ hyper_mat hyper_mat_float2char(hyper_mat f_mat)
  **/
 hyper_mat hyper_mat_float2short(hyper_mat f_mat)
 {
+	hypercv_assert(f_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(f_mat->data_type == 4,"intput mat datatype == float");
 	int samples = f_mat->samples;
 	int lines = f_mat->lines;
@@ -223,6 +230,7 @@ hyper_mat hyper_mat_float2short(hyper_mat f_mat)
  **/
 hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
 {
+	hypercv_assert(f_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(f_mat->data_type == 4,"intput mat datatype == float");
 	int samples = f_mat->samples;
 	int lines = f_mat->lines;
@@ -256,6 +264,7 @@ hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
  **/
 hyper_mat hyper_mat_float2uchar(hyper_mat f_mat)
 {
+	hypercv_assert(f_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(f_mat->data_type == 4,"intput mat datatype == float");
 	int samples = f_mat->samples;
 	int lines = f_mat->lines;
@@ -293,6 +302,7 @@ hyper_mat hyper_mat_float2uchar(hyper_mat f_mat)
  **/
 hyper_mat hyper_mat_float2uint(hyper_mat f_mat)
 {
+	hypercv_assert(f_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(f_mat->data_type == 4,"intput mat datatype == float");
 	int samples = f_mat->samples;
 	int lines = f_mat->lines;
@@ -331,6 +341,7 @@ hyper_mat hyper_mat_float2uint(hyper_mat f_mat)
  **/
 hyper_mat hyper_mat_ushort2float(hyper_mat us_mat)
 {
+	hypercv_assert(us_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(us_mat->data_type == 12,"intput mat datatype == unsigned short");
 	int samples = us_mat->samples;
 	int lines = us_mat->lines;
-- 
2.43.0


From 6568a773ee5eb8e08a8c3c198108bb5ecea86459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 57/74] fix: colour conversions refuse NULL and images that are
 not unsigned char

---
 modules/process/src/c_src/colortransform.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/colortransform.c b/modules/process/src/c_src/colortransform.c
index 0ed2819..05cd53c 100644
--- a/modules/process/src/c_src/colortransform.c
+++ b/modules/process/src/c_src/colortransform.c
@@ -45,6 +45,8 @@ simple_mat hypercv_colortransform(simple_mat src_mat, int method)
 **/
 simple_mat sm_binary2rgb(simple_mat binary_image)
 {
+	hypercv_assert(binary_image != NULL, "input mat cannot be NULL");
+	hypercv_assert(binary_image->data_type == 1, "input mat data type == 1");
 	hypercv_assert(binary_image->channels == 1,"input binary_image channels == 1");
 
 	int rows = binary_image -> rows;
@@ -71,6 +73,8 @@ simple_mat sm_binary2rgb(simple_mat binary_image)
 **/
 simple_mat sm_gray2rgb(simple_mat gray_image)
 {	
+	hypercv_assert(gray_image != NULL, "input mat cannot be NULL");
+	hypercv_assert(gray_image->data_type == 1, "input mat data type == 1");
 	hypercv_assert(gray_image->channels == 1,"input gray image channels == 1");
 
 	int rows = gray_image -> rows;
@@ -97,6 +101,8 @@ simple_mat sm_gray2rgb(simple_mat gray_image)
 **/
 simple_mat sm_rgb2gray(simple_mat rgb_image, int method)
 {
+	hypercv_assert(rgb_image != NULL, "input mat cannot be NULL");
+	hypercv_assert(rgb_image->data_type == 1, "input mat data type == 1");
 	hypercv_assert(rgb_image->channels == 3,"input rgb_image channels == 3");
 
 	int rows = rgb_image -> rows;
@@ -150,7 +156,7 @@ simple_mat sm_rgb2gray(simple_mat rgb_image, int method)
 void sm_bgr2rgb(simple_mat src_mat, simple_mat dst_mat)
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat !=NULL, "input mat cannot be NULL");
-	hypercv_assert(src_mat->data_type == 1, "input mat data type == 1");
+	hypercv_assert(src_mat->data_type == 1 && dst_mat->data_type == 1, "input mat data type == 1");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels==dst_mat->channels,"src,dst size should be equal");
 	hypercv_assert(src_mat->channels == 3,"input mat channels == 3");
 
-- 
2.43.0


From cbcaf7f42336e9a667db0877cf6d9591cb652e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 58/74] fix: morphology refuses results of another size and
 images it cannot process

---
 modules/process/src/c_src/morphology.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index e64480c..5bcc184 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -18,6 +18,9 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 {
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(s!= NULL, "corrosion kernel cannot be NULL");
+	hypercv_assert(dst_mat != NULL, "output mat cannot be NULL");
+	hypercv_assert(mat->data_type == 1 && mat->channels == 1, "only use in gray image of unsigned char");
+	hypercv_assert(dst_mat->rows == mat->rows && dst_mat->cols == mat->cols && dst_mat->data_type == 1 && dst_mat->channels == 1, "src size == dst size");
 
 	int rows = mat->rows;
 	int cols = mat->cols;
@@ -28,11 +31,7 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 	int width = s->width;
 	int height = s->height;
 
-	if (cols < width || rows < height)
-	{
-		printf("wrong, mat's size small than 2d struct");
-		return;
-	}	
+	hypercv_assert(cols >= width && rows >= height, "mat's size small than 2d struct");
 
 	hypercv_assert(dst_mat != NULL,"output mat cannot be NULL");
 
@@ -81,6 +80,9 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 {
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(s!= NULL, "expend kernel cannot be NULL");
+	hypercv_assert(dst_mat != NULL, "output mat cannot be NULL");
+	hypercv_assert(mat->data_type == 1 && mat->channels == 1, "only use in gray image of unsigned char");
+	hypercv_assert(dst_mat->rows == mat->rows && dst_mat->cols == mat->cols && dst_mat->data_type == 1 && dst_mat->channels == 1, "src size == dst size");
 
 	int rows = mat->rows;
 	int cols = mat->cols;
@@ -91,11 +93,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 	int width = s->width;
 	int height = s->height;
 
-	if (cols < width || rows < height)
-	{
-		printf("wrong, mat's size small than 2d struct");
-		return;
-	}	
+	hypercv_assert(cols >= width && rows >= height, "mat's size small than 2d struct");
 
 	hypercv_assert(dst_mat != NULL,"output mat cannot be NULL");
 
-- 
2.43.0


From c27a3d3878b85d3a7c42232380b99408e071cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 59/74] fix: sobel and laplacian refuse NULL, other types and
 results of another size

---
 modules/process/src/c_src/gradient.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/process/src/c_src/gradient.c b/modules/process/src/c_src/gradient.c
index 61638b9..c9a6ea1 100644
--- a/modules/process/src/c_src/gradient.c
+++ b/modules/process/src/c_src/gradient.c
@@ -17,6 +17,8 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
 {
 	hypercv_assert(src!=NULL&&dst!=NULL, "input mat can not be NULL");
 	hypercv_assert(k_size>0,"kernel size > 0");
+	hypercv_assert(src->data_type == 1 && src->channels == 1, "only use in gray image of unsigned char");
+	hypercv_assert(dst->rows == src->rows && dst->cols == src->cols && dst->data_type == 1 && dst->channels == 1, "src size == dst size");
 	int cols = src->cols;
 	int rows = src->rows;
 	int channels = src->channels;
@@ -74,6 +76,8 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
  **/
 void hypercv_sobel(simple_mat src, simple_mat dst, int threshold, int border_type)
 {
+	hypercv_assert(src != NULL && dst != NULL, "input mat can not be NULL");
+	hypercv_assert(src->data_type == 1 && dst->data_type == 1 && dst->channels == 1, "only use in gray image of unsigned char");
 	hypercv_assert(src->rows == dst->rows&&src->cols==dst->cols, "src size == dst size");
 	hypercv_assert(border_type == BORDER_REFLECT
 			||border_type == BORDER_REFLECT_101
-- 
2.43.0


From 5427e06ef24478424f476a28269ff0681c45193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 60/74] fix: normalization refuses other element types,
 channels and unknown norms

---
 modules/algorithm/src/normalize.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index d025d63..2686d4e 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -19,6 +19,7 @@ void hypercv_normalize(simple_mat src, simple_mat dst, float alpha, float beta,
 {
     hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
 	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(src->data_type == 1 || src->data_type == 4, "only unsigned char and float");
 
 	if(src->data_type == 1)
 		hypercv_normalize_uchar(src, dst, alpha, beta, norm_type);
@@ -30,6 +31,8 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 {
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
 	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(src->data_type == 1 && dst->data_type == 1 && src->channels == 1 && dst->channels == 1, "only use in gray image of unsigned char");
+	hypercv_assert(norm_type == NORM_L1 || norm_type == NORM_L2 || norm_type == NORM_INF || norm_type == NORM_MINMAX, "Unknown/unsupported norm type");
 	int rows = src->rows;
 	int cols = src->cols;
 	int data_type = src->data_type;
@@ -85,6 +88,8 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 {
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
 	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(src->data_type == 4 && dst->data_type == 4 && src->channels == 1 && dst->channels == 1, "only use in gray image of float");
+	hypercv_assert(norm_type == NORM_L1 || norm_type == NORM_L2 || norm_type == NORM_INF || norm_type == NORM_MINMAX, "Unknown/unsupported norm type");
 	int rows = src->rows;
 	int cols = src->cols;
 	int data_type = src->data_type;
-- 
2.43.0


From 8a9fec9130990c6b72e05809f6e38dfe25b6967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 61/74] fix: Fourier transforms check for NULL, element types
 and channels

---
 modules/algorithm/src/dft.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 3ce9c41..d3346b3 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -30,6 +30,7 @@ void hypercv_dft(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 	hypercv_assert(src->rows == re_mat->rows&&src->rows == im_mat->rows&&src->cols == re_mat->cols&&src->cols == im_mat->cols,"src,im,re mat size equal");
 	hypercv_assert(re_mat->data_type == 4&&im_mat->data_type == 4,"re_mat and im_mat data_type ==4");
 	hypercv_assert(src->channels == re_mat->channels&&src->channels == im_mat->channels&&src->channels == 1,"only gray image");
+	hypercv_assert(src->data_type == 1 || src->data_type == 12, "only unsigned char and unsigned short");
 
 	if(src->data_type == 1)
 		hypercv_dft_uchar(src, re_mat, im_mat);
@@ -44,6 +45,7 @@ void hypercv_dft_uchar(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 	hypercv_assert(src->rows == re_mat->rows&&src->rows == im_mat->rows&&src->cols == re_mat->cols&&src->cols == im_mat->cols,"src,im,re mat size equal");
 	hypercv_assert(re_mat->data_type == 4&&im_mat->data_type == 4,"re_mat and im_mat data_type ==4");
 	hypercv_assert(src->channels == re_mat->channels&&src->channels == im_mat->channels&&src->channels == 1,"only gray image");
+	hypercv_assert(src->data_type == 1, "src data_type == 1");
 
 	float re,im,temp;
 
@@ -81,6 +83,7 @@ void hypercv_dft_ushort(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 	hypercv_assert(src->rows == re_mat->rows&&src->rows == im_mat->rows&&src->cols == re_mat->cols&&src->cols == im_mat->cols,"src,im,re mat size equal");
 	hypercv_assert(re_mat->data_type == 4&&im_mat->data_type == 4,"re_mat and im_mat data_type ==4");
 	hypercv_assert(src->channels == re_mat->channels&&src->channels == im_mat->channels&&src->channels == 1,"only gray image");
+	hypercv_assert(src->data_type == 12, "src data_type == 12");
 
 	float re,im,temp;
 
@@ -120,6 +123,7 @@ void hypercv_dft_frespectrum(simple_mat src, simple_mat dst)
 	hypercv_assert(dst!=NULL, "OUTPUT MAT CAN NOT BE Null");
 
 	hypercv_assert(src->rows == dst->rows&&src->cols == dst->cols,"SIZE ERROR");
+	hypercv_assert(src->data_type == 1 && src->channels == 1 && dst->data_type == 1 && dst->channels == 1, "only use in gray image of unsigned char");
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -164,7 +168,9 @@ void hypercv_idft(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat)
 
 void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat)
 {
+	hypercv_assert(re_mat != NULL && im_mat != NULL && dst_mat != NULL, "INPUT MAT CANNOT BE NULL");
 	hypercv_assert(re_mat->rows==im_mat->rows&&re_mat->rows==dst_mat->rows&&re_mat->cols == im_mat->cols&&re_mat->cols == dst_mat->cols,"INPUT MAT SIZE ERROR");
+	hypercv_assert(re_mat->channels == 1 && im_mat->channels == 1 && dst_mat->channels == 1, "only gray image");
 	hypercv_assert(re_mat->data_type == im_mat->data_type&&re_mat->data_type == 4,"re and im mat data_type == 4");
 	hypercv_assert(dst_mat->data_type == 1,"output mat is gray image");
 
@@ -196,7 +202,9 @@ void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat
 
 void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat)
 {
+	hypercv_assert(re_mat != NULL && im_mat != NULL && dst_mat != NULL, "INPUT MAT CANNOT BE NULL");
 	hypercv_assert(re_mat->rows==im_mat->rows&&re_mat->rows==dst_mat->rows&&re_mat->cols == im_mat->cols&&re_mat->cols == dst_mat->cols,"INPUT MAT SIZE ERROR");
+	hypercv_assert(re_mat->channels == 1 && im_mat->channels == 1 && dst_mat->channels == 1, "only gray image");
 	hypercv_assert(re_mat->data_type == im_mat->data_type&&re_mat->data_type == 4,"re and im mat data_type == 4");
 	hypercv_assert(dst_mat->data_type == 12,"output mat is gray image");
 
@@ -229,7 +237,9 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 
 void hypercv_magnitude(simple_mat re_mat, simple_mat im_mat, simple_mat dst_mat)
 {
+	hypercv_assert(re_mat != NULL && im_mat != NULL && dst_mat != NULL, "INPUT MAT CANNOT BE NULL");
 	hypercv_assert(re_mat->rows==im_mat->rows&&re_mat->rows==dst_mat->rows&&re_mat->cols == im_mat->cols&&re_mat->cols == dst_mat->cols,"INPUT MAT SIZE ERROR");
+	hypercv_assert(re_mat->channels == 1 && im_mat->channels == 1 && dst_mat->channels == 1, "only gray image");
 	hypercv_assert(re_mat->data_type == im_mat->data_type&&re_mat->data_type == 4,"re and im mat data_type == 4");
 	hypercv_assert(dst_mat->data_type == 4,"output mat is float image");
 
-- 
2.43.0


From 2bcbca0cf7516d3d8e9a73f14009c5eb430648b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 62/74] fix: histogram equalization and linear tension check
 for NULL and element types

---
 modules/algorithm/src/HisEqualization.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 5b45383..ecc5618 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -13,6 +13,7 @@
 void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat could not be NULL");
+	hypercv_assert(src_mat->data_type == 1 && dst_mat->data_type == 1 && src_mat->channels == 1 && dst_mat->channels == 1, "only use in gray image of unsigned char");
 	
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -38,6 +39,8 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 
 void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 {
+	hypercv_assert(bsq_mat != NULL && dst_mat != NULL, "input mat could not be NULL");
+	hypercv_assert(bsq_mat->data_type == 4, "src data type float");
 	hypercv_assert(cmpstr(bsq_mat->interleave,"bsq")==1,"input src mat must be bsq");
 	int samples = bsq_mat -> samples;
 	int lines = bsq_mat -> lines;
-- 
2.43.0


From d6ffed9f263d72a1c9e66c6b9827b3c0d0da4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 63/74] fix: spectral operations check for NULL, element types
 and result sizes

---
 modules/algorithm/src/cem.c                 | 1 +
 modules/algorithm/src/pca.c                 | 2 ++
 modules/process/src/c_src/spectralprocess.c | 5 +++++
 3 files changed, 8 insertions(+)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index c186704..cb9b594 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -13,6 +13,7 @@
  **/
 simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 {
+	hypercv_assert(bsq_mat != NULL && spectral != NULL, "input mat cannot be NULL");
 	hypercv_assert(bsq_mat->data_type == 4           , "input mat data_type is float");
 	
 	hyper_mat tmp_mat = NULL;
diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index 8c73449..3f40d00 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -35,6 +35,8 @@ static void cal_covariance_matrix(simple_mat x, simple_mat mean_mat,simple_mat r
 
 void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 {
+	hypercv_assert(bip_mat != NULL && res_bip_mat != NULL, "input mat cannot be NULL");
+	hypercv_assert(res_bip_mat->samples == bip_mat->samples && res_bip_mat->lines == bip_mat->lines && res_bip_mat->bands == bip_mat->bands && res_bip_mat->data_type == 4, "src mat size == dst mat size");
 
 	hypercv_assert(bip_mat->data_type == 4,"only use in float");
 	int samples = bip_mat->samples;
diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 5a8b598..3d6670f 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -39,6 +39,7 @@ float sp_standard_deviation(float *x, int length)
 simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshold)
 {
 	hypercv_assert(bip_mat != NULL,                       "input hyper mat must not be NULL");
+	hypercv_assert(bip_mat->data_type == 4, "hyper mat datatype == 4");
 	hypercv_assert(cmpstr(bip_mat->interleave,"bip") == 1,"hyper mat interleave should be bip");
 	hypercv_assert(spectrum != NULL,                      "spectrum must not be NULL");
 
@@ -164,6 +165,8 @@ float euclidean_distance(float * x, float * y, int length)
 void hyper_mat_mean(hyper_mat bip_mat, simple_mat dst_mat)
 {
 	hypercv_assert(bip_mat != NULL, "input hyper mat must not be NULL");
+	hypercv_assert(dst_mat != NULL && dst_mat->channels == 1, "output mat must be a gray image");
+	hypercv_assert(bip_mat->data_type == 4, "hyper mat datatype == 4");
 	hypercv_assert(cmpstr(bip_mat->interleave, "bip") == 1, "hyper mat interleave should be bip");
 	int samples = bip_mat -> samples;
 	int lines = bip_mat -> lines;
@@ -192,6 +195,8 @@ void hyper_mat_mean(hyper_mat bip_mat, simple_mat dst_mat)
 void hyper_mat_transport(hyper_mat dst_mat, hyper_mat src_mat)
 {
 	hypercv_assert(src_mat != NULL, "input hyper mat must not be NULL");
+	hypercv_assert(dst_mat != NULL, "output hyper mat must not be NULL");
+	hypercv_assert(dst_mat->data_type == src_mat->data_type, "data type must equal");
 	hypercv_assert(cmpstr(src_mat->interleave, "bsq") == 1, "hyper mat interleave should be bsq");
 	int s_samples = src_mat->samples;
 	int d_samples = dst_mat->samples;
-- 
2.43.0


From 3f3b4a0da5c4b4ebd88b9a186b71dc4115e9db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 64/74] fix: statistics, moments, k-means, thresholds and
 drawing check element types

---
 modules/algorithm/src/cluster.c       |  1 +
 modules/algorithm/src/shapematch.c    |  1 +
 modules/core/src/c_src/simplemat.c    |  2 ++
 modules/highgui/src/draw.c            |  4 ++--
 modules/process/src/c_src/threshold.c | 12 ++++++------
 5 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 85083f5..1f7e456 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -34,6 +34,7 @@ static long int distance(POINT p, int i,int j)
 void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 {
 	hypercv_assert(src != NULL            , "INPUT MAT CANNOT BE Null");
+	hypercv_assert(src->data_type == 1, "only use in unsigned char image");
 	hypercv_assert(kind >= 1              , "kind must >=1");
 	hypercv_assert(vector_size(v1) == kind, "input point vector size == kind");
 
diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index d126c0d..c9d9114 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -25,6 +25,7 @@ void calc_hu_moment(double* hu,simple_mat mat)
 {
 	hypercv_assert(hu!=NULL,"output moments cannot be NULL");
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
+	hypercv_assert(mat->data_type == 1 && mat->channels == 1, "only use in gray image of unsigned char");
 
 	int cols = mat->cols;
 	int rows = mat->rows;
diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 2a5f900..581b101 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -284,6 +284,7 @@ float simple_mat_mean(simple_mat mat)
 {
 	hypercv_assert(mat!=NULL, "input_mat cannot be NULL");
 	hypercv_assert(mat->channels == 1, "only use in gray image");
+	hypercv_assert(mat->data_type == 1 || mat->data_type == 2 || mat->data_type == 3 || mat->data_type == 4 || mat->data_type == 12, "unsupported data type");
 	int rows = mat -> rows;
 	int cols = mat -> cols;
 
@@ -333,6 +334,7 @@ float simple_mat_variance(simple_mat mat)
 {
 	hypercv_assert(mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(mat->channels == 1, "only use in gray image");
+	hypercv_assert(mat->data_type == 1 || mat->data_type == 2 || mat->data_type == 3 || mat->data_type == 4 || mat->data_type == 12, "unsupported data type");
 
 	int rows   = mat->rows;
 	int cols   = mat->cols;
diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index bae668a..f6a99dd 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -8,7 +8,7 @@
 void draw_POINT(simple_mat src_mat, simple_mat dst_mat, POINT* v, int point_num, RGB_data color, int size)
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat !=NULL, "input mat cannot be NULL");
-	hypercv_assert(src_mat->data_type == 1, "input mat data type == 1");
+	hypercv_assert(src_mat->data_type == 1 && dst_mat->data_type == 1, "input mat data type == 1");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels==dst_mat->channels,"src,dst size should be equal");
 
 	int rows = src_mat->rows;
@@ -47,7 +47,7 @@ void draw_POINT(simple_mat src_mat, simple_mat dst_mat, POINT* v, int point_num,
 void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB_data color, int thickness)
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat !=NULL, "input mat cannot be NULL");
-	hypercv_assert(src_mat->data_type == 1, "input mat data type == 1");
+	hypercv_assert(src_mat->data_type == 1 && dst_mat->data_type == 1, "input mat data type == 1");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels==dst_mat->channels,"src,dst size should be equal");
 
 	int rows,cols;
diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 5f80c34..8dd9793 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -77,7 +77,7 @@ void hypercv_threshold_binary(simple_mat src_mat, simple_mat dst_mat, int thresh
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
-	hypercv_assert(src_mat->data_type == 1,"0-255");
+	hypercv_assert(src_mat->data_type == 1 && dst_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
@@ -100,7 +100,7 @@ void hypercv_threshold_binary_inv(simple_mat src_mat, simple_mat dst_mat, int th
 {
     hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
-	hypercv_assert(src_mat->data_type == 1,"0-255");
+	hypercv_assert(src_mat->data_type == 1 && dst_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
@@ -123,7 +123,7 @@ void hypercv_threshold_trunc(simple_mat src_mat, simple_mat dst_mat, int thresh,
 {
     hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
-	hypercv_assert(src_mat->data_type == 1,"0-255");
+	hypercv_assert(src_mat->data_type == 1 && dst_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
@@ -146,7 +146,7 @@ void hypercv_threshold_tozero(simple_mat src_mat, simple_mat dst_mat, int thresh
 {
     hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
-	hypercv_assert(src_mat->data_type == 1,"0-255");
+	hypercv_assert(src_mat->data_type == 1 && dst_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
@@ -169,7 +169,7 @@ void hypercv_threshold_tozero_inv(simple_mat src_mat, simple_mat dst_mat, int th
 {
     hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
-	hypercv_assert(src_mat->data_type == 1,"0-255");
+	hypercv_assert(src_mat->data_type == 1 && dst_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
@@ -194,7 +194,7 @@ void hypercv_threshold_otsu(simple_mat src_mat, simple_mat dst_mat)
 {
  hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
-	hypercv_assert(src_mat->data_type == 1,"0-255");
+	hypercv_assert(src_mat->data_type == 1 && dst_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 
-- 
2.43.0


From c7ab1b58a881cf2c8f068173d0568ad9d502377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 65/74] fix: gaussian blur, integral and filter2D check types,
 kernels and result sizes

---
 modules/process/src/c_src/filter.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 3c25bec..d8c68a5 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -86,6 +86,7 @@ static void hypercv_make_const_border(simple_mat src, simple_mat dst, int top, i
 void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows, int k_cols, int border_type)
 {
 	hypercv_assert(src!= NULL&&dst!=NULL,"input mat cannot be null");
+	hypercv_assert(src->data_type == 1,"src data_type == unsigned char");
 	hypercv_assert(kernel!=NULL,"kernel cannot be null");
 	hypercv_assert(dst->data_type == 4,"dst data_type == float");
 	hypercv_assert(dst->rows == src->rows && dst->cols == src->cols && dst->channels == src->channels,"src size == dst size");
@@ -337,10 +338,13 @@ void hypercv_gaussian_blur(simple_mat src_mat, simple_mat dst_mat, int ksize_wid
  **/
 void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, simple_mat kernel_mat_x, simple_mat kernel_mat_y, int border_type)
 {
+	hypercv_assert(src_mat!=NULL,"input mat must not be NULL");
+	hypercv_assert(kernel_mat_x!=NULL&&kernel_mat_y!=NULL,"kernel must not be NULL");
+	hypercv_assert(kernel_mat_x->data_type == 4&&kernel_mat_y->data_type == 4,"kernel must be float");
+
 	int ksize_width = kernel_mat_x->cols;
 	int ksize_height = kernel_mat_y->cols;
 
-	hypercv_assert(src_mat!=NULL,"input mat must not be NULL");
 	hypercv_assert(ksize_width>=0,"length of kernel_x must >=0");
 	hypercv_assert(ksize_height>=0,"length of kernel_y must >=0");
 	hypercv_assert(border_type == BORDER_REFLECT
@@ -356,6 +360,8 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 	int border_y = ksize_height/2;
 
 	hypercv_assert(dst_mat != NULL,"output mat must not be NULL");
+	hypercv_assert(src_mat->data_type == 1 && dst_mat->data_type == 1,"only use in unsigned char image");
+	hypercv_assert(dst_mat->rows == src_mat->rows && dst_mat->cols == src_mat->cols && dst_mat->channels == cn,"src size == dst size");
 	unsigned char* dst_data =(unsigned char*) dst_mat -> data;
 
 	int src_rows = src_mat->rows;
@@ -489,6 +495,7 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 
 	hypercv_assert(dst != NULL,"output mat cannot be null");
 	hypercv_assert(dst->channels == 1&&dst->data_type == 3,"dst mat error");
+	hypercv_assert(dst->rows == rows && dst->cols == cols,"src size == dst size");
 
 	unsigned char* src_data = (unsigned char*)src->data;
 	int* dst_data = (int*)dst->data;
-- 
2.43.0


From 0576a1572375055b220105a2f74b4d5f1964de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:07 +0000
Subject: [PATCH 66/74] fix: HyMat::save reports a missing path or an empty
 cube

---
 modules/core/include/cxx_include/hypermat.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index a4ac6e8..3961afe 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -233,14 +233,8 @@ namespace hypercv
 
 	inline void HyMat::save(const char* filePath)
 	{
-		if(filePath == NULL)
-			return;
-
-		if(samples == 0||lines == 0||bands == 0)
-		{
-			std::cout<<"mat size error";
-			return;
-		}
+		hypercv_assert(filePath != NULL, "image path can not be NULL");
+		hypercv_assert(samples > 0 && lines > 0 && bands > 0, "mat size error");
 
 		// the old header must not describe the new data
 		std::string hdrPath = std::string(filePath) + ".hdr";
-- 
2.43.0


From 64190c0ca806aa2ce92e922c1599b30869c17245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:07 +0000
Subject: [PATCH 67/74] fix: HyMat::open without a path leaves no old cube
 behind

---
 modules/core/include/cxx_include/hypermat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 3961afe..5565261 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -289,15 +289,15 @@ namespace hypercv
 
 	inline void HyMat::open(const char* imagePath, const char* hdrPath)
 	{
+		if (empty() == 0)
+			release();
+
 		if(imagePath == NULL || hdrPath == NULL)
 		{
 			printf("image path or hdr path can not be NULL\n");
 			return;
 		}
 
-		if (empty() == 0)
-			release();
-
 		int _samples, _lines, _bands, _dataType, _format;
 		float* _wavelength = NULL;
 		if (readHdr(hdrPath, _samples, _lines, _bands, _dataType, _format, _wavelength) == 0)
-- 
2.43.0


From 92ab8f4ccd76d18e1843de0f66c6c3a95f8c7680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 68/74] fix: creating a cube refuses an unknown interleave

---
 modules/core/src/c_src/hypermat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index c7a46aa..210ef58 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -237,6 +237,7 @@ hyper_mat create_hyper_mat_with_data(const int samples, const int lines, const i
 	hypercv_assert(samples > 0, "the samples of hyper mat must be greater than zero.");
 	hypercv_assert(lines > 0, "the lines of hyper mat must be greater than zero.");
 	hypercv_assert(bands > 0, "the bands of hyper mat must be greater than zero.");
+	hypercv_assert(interleave != NULL && (strncmp(interleave, "bsq", 3) == 0 || strncmp(interleave, "bil", 3) == 0 || strncmp(interleave, "bip", 3) == 0), "unknown interleave of hyper mat");
 
 	hyper_mat mat;
 
-- 
2.43.0


From bb6afe3c3d10687fb11595f4695c15aa1af8d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 69/74] fix: hypercv_idft refuses results of another element
 type

---
 modules/algorithm/src/dft.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index d3346b3..47b8af6 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -160,6 +160,7 @@ void hypercv_dft_frespectrum(simple_mat src, simple_mat dst)
 
 void hypercv_idft(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat)
 {
+	hypercv_assert(dst_mat != NULL && (dst_mat->data_type == 1 || dst_mat->data_type == 12), "output mat must be unsigned char or unsigned short");
 	if(dst_mat->data_type == 1)
 		hypercv_idft_uchar(re_mat, im_mat, dst_mat);
 	else if(dst_mat->data_type == 12)
-- 
2.43.0


From 0755bc3e72045849e3990f2ab9c6a5836be744e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 70/74] fix: simple mats refuse NULL to copy and unknown types
 of adopted data

---
 modules/core/src/c_src/simplemat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 581b101..33a3100 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -34,9 +34,10 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 	long int data_size = 0;
 	int elem_size = get_elemsize(data_type);
 
+	hypercv_assert(elem_size > 0 && channels > 0, "unknown data type or channels of simple mat");
+
 	if (data == NULL)
 	{
-		hypercv_assert(elem_size > 0 && channels > 0, "unknown data type or channels of simple mat");
 		hypercv_assert(rows <= PTRDIFF_MAX / 2 / cols / channels / elem_size, "simple mat is too large");
 		data_size = (long int)rows * cols * elem_size * channels; 
 		memneeded += data_size;
@@ -102,6 +103,8 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
  **/
 simple_mat simple_mat_copy(simple_mat mat)
 {
+	hypercv_assert(mat != NULL, "input mat can not be NULL");
+
     int rows      = mat -> rows;
 	int cols      = mat -> cols;
 	int data_type = mat->data_type;
-- 
2.43.0


From 395750528b438cc8b7504ef2680d20f4ce782b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:31 +0000
Subject: [PATCH 71/74] fix: headers with a header offset or a foreign byte
 order were read as if they had none

A cube whose header says 'header offset = 512' or 'byte order = 1' was loaded
with wrong values and no message by hmread_with_hdr and HyMat::open.
---
 modules/core/include/c_include/type.h         | 24 +++++++++++++++++
 modules/core/include/cxx_include/hypermat.hpp | 13 ++++++---
 modules/core/src/c_src/hypermat.c             | 27 +++++++++++++++++--
 modules/core/src/cxx_src/hypermat.cpp         | 17 +++++++++++-
 4 files changed, 75 insertions(+), 6 deletions(-)

diff --git a/modules/core/include/c_include/type.h b/modules/core/include/c_include/type.h
index 2e780f6..130f6e3 100644
--- a/modules/core/include/c_include/type.h
+++ b/modules/core/include/c_include/type.h
@@ -79,6 +79,30 @@ static inline int get_elemsize(const int data_type)
 	}
 	return -1;
 }
+
+// byte order of this machine as in the hdr file, 0: least significant byte first 1: most significant byte first
+static inline int get_byte_order(void)
+{
+	const int one = 1;
+	return *(const char*)&one == 1 ? 0 : 1;
+}
+
+// reverse the bytes of each element
+static inline void swap_byte_order(void* data, int elem_size, long int size)
+{
+	char* p = (char*)data;
+
+	for (long int i = 0; i < size; i++, p += elem_size)
+	{
+		for (int j = 0; j < elem_size / 2; j++)
+		{
+			char t = p[j];
+			p[j] = p[elem_size - 1 - j];
+			p[elem_size - 1 - j] = t;
+		}
+	}
+}
+
 #define  BORDER_CONSTANT     0
 #define  BORDER_REPLICATE    1
 #define  BORDER_REFLECT      2
diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 5565261..036bf2d 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -16,7 +16,8 @@
 namespace hypercv
 {
 	// returns 1 and a new wavelength list (NULL if the header has none), or 0 if the header is missing or damaged
-	extern int readHdr(const char* hdrPath, int& samples, int& lines, int& bands, int& dataType, int& format, float*& wavelength);
+	// offset and byteOrder get the bytes in front of the image data and the order of the bytes of an element
+	extern int readHdr(const char* hdrPath, int& samples, int& lines, int& bands, int& dataType, int& format, float*& wavelength, long int* offset = NULL, int* byteOrder = NULL);
 
 #if gdal_switch
 #ifndef DATA_TYPE_2_GDAL_DATA_TYPE
@@ -300,7 +301,9 @@ namespace hypercv
 
 		int _samples, _lines, _bands, _dataType, _format;
 		float* _wavelength = NULL;
-		if (readHdr(hdrPath, _samples, _lines, _bands, _dataType, _format, _wavelength) == 0)
+		long int _offset;
+		int _byteOrder;
+		if (readHdr(hdrPath, _samples, _lines, _bands, _dataType, _format, _wavelength, &_offset, &_byteOrder) == 0)
 		{
 			printf("hdr file is missing or damaged\n");
 			return;
@@ -318,7 +321,9 @@ namespace hypercv
 			return ;
 		}
 
-		long int readSize = fread(data, 1, dataSize, _fp);
+		long int readSize = 0;
+		if (_offset == 0 || fseek(_fp, _offset, SEEK_SET) == 0)
+			readSize = fread(data, 1, dataSize, _fp);
 		fclose(_fp);
 
 		if (readSize != dataSize)
@@ -326,6 +331,8 @@ namespace hypercv
 			printf("image file is damaged\n");
 			release();
 		}
+		else if (_byteOrder != get_byte_order())
+			swap_byte_order(data, elemSize, dataSize / elemSize);
 	}
 
 	inline void HyMat::open(const char* path, int _samples, int _lines, int _bands, int _dataType, int _format)
diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 210ef58..314528e 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -125,9 +125,11 @@ static int read_wavelength(char* w, float* wavelength, int bands)
  * @param[in]  bands       image bands.
  * @param[in]  data_type   data type 1: Byte (8 bits) 2: Integer (16 bits) 3: Long integer (32 bits) 4: Floating-point (32 bits) 5: Double-precision floating-point (64 bits) 6: Complex (2x32 bits) 9: Double-precision complex (2x64 bits) 12: Unsigned integer (16 bits) 13: Unsigned long integer (32 bits) 14: Long 64-bit integer 15: Unsigned long 64-bit integer
  * @param[in]  interleave  bil bsq bip.
+ * @param[in]  offset      bytes in front of the image data.
+ * @param[in]  byte_order  0: least significant byte first 1: most significant byte first.
  * @retval     1 if the header is complete and valid, else 0.
  **/
-static int readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* data_type, char* interleave, float** wavelength)
+static int readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* data_type, char* interleave, float** wavelength, long int* offset, int* byte_order)
 {
 	hypercv_assert(hdr_fp != NULL, "can not open hdr file");
 
@@ -138,6 +140,9 @@ static int readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* data
 
 	int sampletemp = 0, linetemp = 0, bandtemp = 0, datatypetemp = 0;
 
+	*offset = 0;
+	*byte_order = get_byte_order();
+
 	while (fgets(line, MAXLINE, hdr_fp) != 0)
 	{   
 		char* value = strchr(line, '=');
@@ -167,6 +172,10 @@ static int readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* data
 			bandtemp = atoi(value);
 		else if (hdr_field(line, "data type"))
 			datatypetemp = atoi(value);
+		else if (hdr_field(line, "header offset"))
+			*offset = atol(value);
+		else if (hdr_field(line, "byte order"))
+			*byte_order = atoi(value);
 		else if (hdr_field(line, "interleave"))
 		{
 			for(int i=0;i<3;i++)
@@ -182,6 +191,7 @@ static int readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* data
 
 	int elem_size = get_elemsize(datatypetemp);
 	int valid = ferror(hdr_fp) == 0 && sampletemp > 0 && linetemp > 0 && bandtemp > 0 && elem_size > 0
+		&& *offset >= 0 && (*byte_order == 0 || *byte_order == 1)
 		&& linetemp <= PTRDIFF_MAX / sampletemp / bandtemp / elem_size
 		&& (strcmp(it, "bsq") == 0 || strcmp(it, "bil") == 0 || strcmp(it, "bip") == 0);
 
@@ -296,6 +306,8 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	int samples, lines, bands, data_type;
 	char interleave[4];
 	float* wavelength = NULL;
+	long int offset;
+	int byte_order;
 
 	FILE* image_fp = NULL;
 	FILE* hdr_fp = NULL;
@@ -313,7 +325,7 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 		return 0;
 	}
 
-	int valid = readhdr(hdr_fp, &samples, &lines,&bands, &data_type, interleave, &wavelength);
+	int valid = readhdr(hdr_fp, &samples, &lines,&bands, &data_type, interleave, &wavelength, &offset, &byte_order);
 	fclose(hdr_fp);
 
 	if (!valid)
@@ -322,6 +334,14 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 		fclose(image_fp);
 		return 0;
 	}
+
+	if (offset > 0 && fseek(image_fp, offset, SEEK_SET) != 0)
+	{
+		printf("image file is damaged\n");
+		fclose(image_fp);
+		free(wavelength);
+		return 0;
+	}
 	
 	unsigned int elem_size = get_elemsize(data_type);
 	long int data_size = (long int)samples * lines * bands;
@@ -333,6 +353,9 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	
 	fclose(image_fp);
 
+	if (byte_order != get_byte_order())
+		swap_byte_order(data, elem_size, read_size);
+
 	hyper_mat mat = NULL;
 	if (read_size == data_size)
 		mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 18542b6..0786bea 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -56,12 +56,15 @@ namespace hypercv
 		return end != line.npos && line[end] == '=';
 	}
 
-	int readHdr(const char* hdrPath, int& samples, int& lines, int& bands,  int& dataType, int& format, float*& wavelength)
+	int readHdr(const char* hdrPath, int& samples, int& lines, int& bands,  int& dataType, int& format, float*& wavelength, long int* offset, int* byteOrder)
 	{
 		samples = lines = bands = dataType = 0;
 		format = -1;
 		wavelength = NULL;
 
+		long int offsetTemp = 0;
+		int byteOrderTemp = get_byte_order();
+
 		if(hdrPath == NULL)
 			return 0;
 
@@ -102,6 +105,12 @@ namespace hypercv
 			else if (hdrField(lineBuff, "data type"))
 				dataType = atoi(value.c_str());
 
+			else if (hdrField(lineBuff, "header offset"))
+				offsetTemp = atol(value.c_str());
+
+			else if (hdrField(lineBuff, "byte order"))
+				byteOrderTemp = atoi(value.c_str());
+
 			else if (hdrField(lineBuff, "interleave"))
 			{
 				string it = value.substr(0, 3);
@@ -123,9 +132,15 @@ namespace hypercv
 
 		int elemSize = get_elemsize(dataType);
 		if (readError || samples <= 0 || lines <= 0 || bands <= 0 || elemSize <= 0 || format < 0
+				|| offsetTemp < 0 || (byteOrderTemp != 0 && byteOrderTemp != 1)
 				|| lines > PTRDIFF_MAX / samples / bands / elemSize)
 			return 0;
 
+		if (offset != NULL)
+			*offset = offsetTemp;
+		if (byteOrder != NULL)
+			*byteOrder = byteOrderTemp;
+
 		if (waveBuff.empty())
 			return 1;
 
-- 
2.43.0


From ec33aad654467e28e0c8bc44833facd8e49baa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:41 +0000
Subject: [PATCH 72/74] fix: a header that lost a part to a failed write could
 still be taken for a complete one

When a write in the middle of the header failed and the next one went through,
the save reported the failure but left a header without its wavelengths that
loaded as a complete one. The field that completes a header is now written only
after everything before it has reached the file.
---
 modules/core/include/cxx_include/hypermat.hpp | 7 +++++--
 modules/core/src/c_src/hypermat.c             | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 036bf2d..aeca2cd 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -280,8 +280,11 @@ namespace hypercv
 			fputs("wavelength = unknown \n",fp);
 		}
 
-		// the last field, so that a header that was cut is never taken for a complete one
-		fputs("interleave = ", fp); fprintf(fp, "%c%c%c\n", interleave[0], interleave[1], interleave[2]);
+		// the last field, so that a header that was cut or lost a part is never taken for a complete one
+		if (fflush(fp) == 0 && ferror(fp) == 0)
+		{
+			fputs("interleave = ", fp); fprintf(fp, "%c%c%c\n", interleave[0], interleave[1], interleave[2]);
+		}
 
 		int writeError = ferror(fp);
 		int closeError = fclose(fp);
diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 314528e..21cb785 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -512,8 +512,11 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 		fputs("wavelength = unknown \n",fp);
 	}
 
-	// the last field, so that a header that was cut is never taken for a complete one
-	fputs("interleave = ", fp); fprintf(fp, "%s\n", it);
+	// the last field, so that a header that was cut or lost a part is never taken for a complete one
+	if (fflush(fp) == 0 && ferror(fp) == 0)
+	{
+		fputs("interleave = ", fp); fprintf(fp, "%s\n", it);
+	}
 
 	int write_error = ferror(fp);
 	int close_error = fclose(fp);
-- 
2.43.0


From 95bbf0995fd36d50e8c0a47822d3a4b18cbe418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:44 +0000
Subject: [PATCH 73/74] fix: matrix products added to what the result held
 before

MulMatrix_* and everything built on them (correlation_matrix_*, hyper_mat_pca)
gave another result when the result matrix or cube was used before.
---
 modules/process/src/c_src/matrixprocess.c | 24 +++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 8ef2023..33fcfad 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -12,8 +12,11 @@ void MulMatrix_char(char *x,char *y,char*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -26,8 +29,11 @@ void MulMatrix_uchar(unsigned char *x,unsigned char *y, unsigned char*z, int m,i
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -40,8 +46,11 @@ void MulMatrix_short(short *x,short *y,short*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -54,8 +63,11 @@ void MulMatrix_ushort(unsigned short *x,unsigned short *y,unsigned short *z, int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //矩阵乘法
@@ -69,8 +81,11 @@ void MulMatrix_int(int *x,int *y,int*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -83,8 +98,11 @@ void MulMatrix_uint(unsigned int *x, unsigned int *y, unsigned int *z, int m,int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -97,8 +115,11 @@ void MulMatrix_float(float *x,float *y, float* z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -111,8 +132,11 @@ void MulMatrix_double(double *x, double *y, double*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //距阵转置
-- 
2.43.0


From 9854c26f0c51dbff309dc33700b0958b9ed5e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 74/74] fix: the rest of a header line longer than the buffer
 was read as a field

---
 modules/core/src/c_src/hypermat.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 21cb785..6b3731c 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -143,8 +143,17 @@ static int readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* data
 	*offset = 0;
 	*byte_order = get_byte_order();
 
+	int whole = 1;	// if the line before this one was read to its end
+
 	while (fgets(line, MAXLINE, hdr_fp) != 0)
 	{   
+		int rest = !whole;
+		whole = strchr(line, '\n') != NULL;
+
+		// the rest of a line that is longer than MAXLINE is no field
+		if (rest)
+			continue;
+
 		char* value = strchr(line, '=');
 
 		if (value == NULL)
-- 
2.43.0

