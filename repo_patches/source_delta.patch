From 22f728aff479fd472eef937667231874e7a65ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 01/95] fix: hyper_mat_copy returned NULL for every cube
 (inverted NULL check)

---
 modules/core/src/c_src/hypermat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ad50eed..ca93da3 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -393,7 +393,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
  **/
 hyper_mat hyper_mat_copy(hyper_mat mat)
 {
-	if(mat!=NULL)
+	if(mat==NULL)
 		return NULL;
 
 	int samples   = mat->samples;
-- 
2.43.0


From b38fefbc482da8e65d3bcf0f3cacaf54b0620abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 02/95] fix: create_hyper_mat used size -1 for unsupported data
 types and overflowed int sizes

---
 modules/core/src/c_src/hypermat.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ca93da3..cc2acd9 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -179,8 +179,9 @@ hyper_mat create_hyper_mat_with_data(const int samples, const int lines, const i
 
 	long int  memneeded = sizeof(HyperMat);
 	int elem_size = get_elemsize(data_type);
+	hypercv_assert(elem_size > 0, "the data type of hyper mat is not supported.");
     
-	long int mat_data_size = samples * lines * bands * elem_size;
+	long int mat_data_size = (long int)samples * lines * bands * elem_size;
 	int wave_data_size = bands * sizeof(float);
 
 	memneeded += mat_data_size + ALLOC_BYTE_ALIGNMENT;
-- 
2.43.0


From 2ab6d6f460056dcc5e8ecf151bd484cc0817f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 03/95] fix: create_simple_mat accepted unsupported data types
 and channel counts

---
 modules/core/src/c_src/simplemat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 869b43b..4867ec8 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -26,11 +26,13 @@ simple_mat create_simple_mat(int rows, int cols, int date_type, int channels)
 simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int channels, void* data)
 {
 	hypercv_assert(rows > 0 && cols > 0, "the rows and cols of mat must be greater than zero ");
+	hypercv_assert(channels > 0, "the channels of mat must be greater than zero ");
 
 	simple_mat mat;
 
 	int memneeded = sizeof(SIMPLE_MAT);
 	int elem_size = get_elemsize(data_type);
+	hypercv_assert(elem_size > 0, "the data type of mat is not supported");
 
 	if (data == NULL)
 	{
-- 
2.43.0


From b9e3f7ce45125777cd138bf355d1d8e230453070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 04/95] fix: create_simple_mat cleared only the first channel's
 worth of pixels

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 4867ec8..6f8601c 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -47,7 +47,7 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 	{
 		uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
 		BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
-		memset((void*)address, 0, rows * cols * elem_size);
+		memset((void*)address, 0, rows * cols * elem_size * channels);
 		mat -> data = (void*)address;
 	}
 	else
-- 
2.43.0


From 39a28be9dbbc156ac9debe10166a360f1101883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 05/95] fix: delete_simple_mat freed inline data or leaked user
 data depending on addresses

---
 modules/core/src/c_src/simplemat.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 6f8601c..2a9c6d3 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -37,8 +37,10 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 	if (data == NULL)
 	{
 		int data_size = rows * cols * elem_size * channels; 
-		memneeded += data_size + ALLOC_BYTE_ALIGNMENT;
+		memneeded += data_size;
 	}
+	// always reserved, so that user data can never lie where inline data would
+	memneeded += ALLOC_BYTE_ALIGNMENT;
 
 	mat = (simple_mat)malloc(sizeof(char) * memneeded);
 	hypercv_assert(mat != NULL, "failed to allocate memory");
@@ -496,7 +498,10 @@ void delete_simple_mat(simple_mat mat)
 	if(mat == NULL)
 		return;
 
-	if((uintptr_t)mat + ALLOC_BYTE_ALIGNMENT >= (uintptr_t)mat->data)
+	uintptr_t begin = (uintptr_t)mat;
+	uintptr_t data  = (uintptr_t)mat->data;
+
+	if(data >= begin && data < begin + sizeof(SIMPLE_MAT) + ALLOC_BYTE_ALIGNMENT)
 	{
 		free(mat);
 		mat = NULL;	
-- 
2.43.0


From bab48d6795e68033690800dd53c8b8eaddaab358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 06/95] fix: smread ignored the channel count

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 2a9c6d3..beaa8cc 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -79,7 +79,7 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 	hypercv_assert(image_fp != NULL, "can not open files");
 
 	int elem_size = get_elemsize(data_type);
-	int data_size = rows * cols;
+	int data_size = rows * cols * channels;
 	void* data = (void *)malloc(data_size * elem_size);
 
 	fread(data, elem_size, data_size, image_fp);
-- 
2.43.0


From 68e768a038a7d3b0bac9ce66d734ca0fad0f8809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 07/95] fix: delete_S_2D leaked the data of a struct created
 without data

---
 modules/core/src/c_src/struct_2D.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/c_src/struct_2D.c b/modules/core/src/c_src/struct_2D.c
index 416b0f6..2acac23 100644
--- a/modules/core/src/c_src/struct_2D.c
+++ b/modules/core/src/c_src/struct_2D.c
@@ -15,13 +15,20 @@ S_2D create_2D_struct(int width, int height)
 {
 	hypercv_assert(width>=1 && height>=1, "2D struct's width or height must bigger than 0");
 	
-	unsigned char * data = (unsigned char*)malloc(width * height * sizeof(unsigned char));
+	// header and data share one block, which delete_S_2D frees
+	S_2D s = (S_2D)malloc(sizeof(STRUCT_2D) + width * height * sizeof(unsigned char));
+	hypercv_assert(s != NULL ,"fail to build 2d_struct");
+
+	unsigned char * data = (unsigned char*)s + sizeof(STRUCT_2D);
 	
 	for(int i=0; i<width*height; i++)
 		data[i] = 1;
 	
-	return create_2D_struct_with_data(width, height, data);
-	
+	s->data = data;
+	s->width = width;
+	s->height = height;
+
+	return s;
 }
 
 /**
-- 
2.43.0


From 05ecd49eb07be5f0a65b14d4d7bbc729352fdfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 08/95] fix: hdr files: fields matched by name prefix, buffers
 overflowed on formatting, results uninitialised

---
 modules/core/src/c_src/hypermat.c | 135 ++++++++++++++----------------
 1 file changed, 65 insertions(+), 70 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index cc2acd9..0d2fb2a 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -35,30 +35,16 @@ int cmpstr(char temp1[],char temp2[])
 }
 
 // private function purpose to read wavelength from hdr file
-// default wavelength charlength < 12
+// w is the text of the list, "{ v1, v2, ... }"
 static void read_wavelength(char* w, float* wavelength, int bands)
 {
-	char* tmp = (char*)malloc(MAXWAVECHAR*sizeof(char));
-	for(int i=0;i<MAXWAVECHAR;i++)
-		tmp[i]=' ';
-	int t = 0;
-	int n = 0;
-	for (int i=0;i<strlen(w);i++)
+	char* p = strchr(w, '{');
+	for (int n=0; n<bands && p != NULL; n++)
 	{
-		if(w[i]!=','&&w[i]!='}')
-			tmp[t++] = w[i];
-		else
-		{
-			wavelength[n++] = atof(tmp);
-			t=0;
-			for(int j=0;j<MAXWAVECHAR;j++)
-				tmp[j]=' ';
-		}
-		if(w[i]=='}'||n==bands)
-			break;
+		p++;
+		wavelength[n] = atof(p);
+		p = strchr(p, ',');
 	}
-	free(tmp);
-	tmp=NULL;
 }
 
 
@@ -84,64 +70,72 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 	hypercv_assert(hdr_fp != NULL, "can not open hdr file");
 
 	char line[MAXLINE];
-	char item[MAXLINE];
-
-	char it[4];
-
-	int sampletemp = 0, linetemp = 0, bandtemp = 0, datatypetemp = 0;
+	char* wave_text = NULL;
 
 	while (fgets(line, MAXLINE, hdr_fp) != 0)
 	{   
-		sscanf(line, "%[^=]", item);
-
-		if (cmpstr(item, "samples") == 1)
+		char* value = strchr(line, '=');
+		if (value == NULL)
+			continue;
+
+		// the name of the item is the text before '=', without blanks around it
+		char* item = line + strspn(line, " \t");
+		char* item_end = value;
+		while (item_end > item && (item_end[-1] == ' ' || item_end[-1] == '\t'))
+			item_end--;
+		*item_end = '\0';
+		value++;
+
+		if (strchr(value, '{') != NULL)
 		{
-			sscanf(line, "%*[^=]=%d",&sampletemp);
-			*samples = sampletemp ;
-		}
-		else if (cmpstr(item, "lines") == 1)
-		{
-			sscanf(line, "%*[^=]=%d",&linetemp);
-			*lines = linetemp;
-		}
-		else if (cmpstr(item, "bands") == 1)
-		{
-			sscanf(line, "%*[^=]=%d", &bandtemp);
-			*bands = bandtemp;
-		}
-		else if (cmpstr(item, "data") == 1)
-		{
-			sscanf(line, "%*[^=]=%d", &datatypetemp);
-			*data_type = datatypetemp;
-		}
-		else if (cmpstr(item, "interleave") == 1)
-		{
-			sscanf(line, "%*[^=]=%c%c%c%c", &it[0],&it[1],&it[2],&it[3]);
-			for(int i=0;i<4;i++)
+			// a list may go over several lines, up to '}'
+			size_t len = strlen(value);
+			char* text = (char*)malloc(len + 1);
+			hypercv_assert(text != NULL, "malloc fail");
+			memcpy(text, value, len + 1);
+
+			char more[MAXLINE];
+			while (strchr(text, '}') == NULL && fgets(more, MAXLINE, hdr_fp) != 0)
 			{
-				if(it[i]!=' ')
-					*interleave++ = it[i];
+				size_t more_len = strlen(more);
+				text = (char*)realloc(text, len + more_len + 1);
+				hypercv_assert(text != NULL, "malloc fail");
+				memcpy(text + len, more, more_len + 1);
+				len += more_len;
 			}
-		}
-		else if (cmpstr(line,"wavelength = {")==1)
-		{	
-			char* w = (char*)malloc(MAXWAVECHAR * bandtemp*sizeof(char));
-			char* t_w = w;
 
-			while (strchr(line, '}') == NULL&&fgets(line, MAXLINE, hdr_fp) != 0)
+			if (strcmp(item, "wavelength") == 0)
 			{
-				for (int i = 0; i < strlen(line); i++)
-				{
-					if (line[i] != '\n')
-						*t_w++ = line[i];
-				}
+				free(wave_text);
+				wave_text = text;
 			}
-			float* wave = (float*)malloc((bandtemp)*sizeof(float));
-			read_wavelength(w, wave, bandtemp);
-			*wavelength = wave;
-			free(w); w = NULL;
+			else
+				free(text);
 		}
+		else if (strcmp(item, "samples") == 0)
+			*samples = atoi(value);
+		else if (strcmp(item, "lines") == 0)
+			*lines = atoi(value);
+		else if (strcmp(item, "bands") == 0)
+			*bands = atoi(value);
+		else if (strcmp(item, "data type") == 0)
+			*data_type = atoi(value);
+		else if (strcmp(item, "interleave") == 0)
+		{
+			value += strspn(value, " \t");
+			for (int i=0; i<3 && value[i] != '\0'; i++)
+				interleave[i] = value[i];
+		}
+	}
+
+	if (wave_text != NULL && *bands > 0)
+	{
+		float* wave = (float*)calloc(*bands, sizeof(float));
+		hypercv_assert(wave != NULL, "malloc fail");
+		read_wavelength(wave_text, wave, *bands);
+		*wavelength = wave;
 	}
+	free(wave_text);
 }
 
 /**
@@ -228,8 +222,8 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	hypercv_assert(image_path != NULL, "image path or hdr path can not be NULL");
 	hypercv_assert(hdr_path != NULL, "image path or hdr path can not be NULL");
 
-	int samples, lines, bands, data_type;
-	char* interleave = (char*)malloc(3*sizeof(char));
+	int samples = 0, lines = 0, bands = 0, data_type = 0;
+	char interleave[3] = {0, 0, 0};
 	float* wavelength = NULL;
 
 	FILE* image_fp = NULL;
@@ -259,7 +253,8 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	
 	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
 
-	free(interleave);
+	free(data);
+	free(wavelength);
 	
 	return mat;
 }
-- 
2.43.0


From 979664daa9ac39f70e94b3c346b7c57ce40ddbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 09/95] fix: hmread_with_hdr leaked open files and accepted
 incomplete headers

---
 modules/core/src/c_src/hypermat.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 0d2fb2a..c27a718 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -235,13 +235,18 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	if (image_fp == NULL || hdr_fp == NULL)
 	{
 		printf("can not open file\n");
+		if (image_fp != NULL)
+			fclose(image_fp);
+		if (hdr_fp != NULL)
+			fclose(hdr_fp);
 		return 0;
 	}
 	else
 		readhdr(hdr_fp, &samples, &lines,&bands, &data_type, interleave, &wavelength);
 	
-	unsigned int elem_size = get_elemsize(data_type);
-	long int data_size = samples * lines * bands;
+	int elem_size = get_elemsize(data_type);
+	hypercv_assert(samples > 0 && lines > 0 && bands > 0 && elem_size > 0 && interleave[2] != 0, "hdr file is incomplete or not supported");
+	long int data_size = (long int)samples * lines * bands;
 
 	void* data = (void *)malloc(data_size * elem_size);
 	hypercv_assert(data != NULL, "malloc fail");
-- 
2.43.0


From d78d15cf9af2bad8dc9bbf742d323b6d32b68bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 10/95] fix: hmread_with_size leaked its buffers and returned
 uninitialised wavelengths

---
 modules/core/src/c_src/hypermat.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index c27a718..1646666 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -288,16 +288,18 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 	}
 
 	int elem_size = get_elemsize(data_type);
-	long int data_size = samples * lines * bands;
+	hypercv_assert(elem_size > 0, "data type is not supported");
+	long int data_size = (long int)samples * lines * bands;
 
 	void* data = (void *)malloc(data_size * elem_size);
+	hypercv_assert(data != NULL, "malloc fail");
 
 	fread(data, elem_size, data_size, image_fp);
 	fclose(image_fp);
 
-	float* wavelength = (float*)malloc(bands*sizeof(float));
+	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, NULL);
 
-	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
+	free(data);
 
 	return mat;
 }
-- 
2.43.0


From a86bc3b74119cb42cf376b5a27185277b598a131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 11/95] fix: writehdr leaked its buffers and did not check that
 the file opened

---
 modules/core/src/c_src/hypermat.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 1646666..b100afe 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -360,6 +360,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 
 	FILE *fp;
 	fp = fopen(hdr_path, "w");
+	hypercv_assert(fp != NULL, "can not open files");
 
 	fputs("ENVI\n", fp);
 	fputs("samples = ", fp); fprintf(fp, "%d\n", samples);
@@ -386,6 +387,8 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 		fputs("wavelength = unknown \n",fp);
 	}
 	fclose(fp);
+	free(it);
+	free(hdr_path);
 }
 
 
-- 
2.43.0


From 1bb2eb0ef28ca687d5739f23909b011df39527d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 12/95] fix: smread_bmp left the middle row of odd heights in
 BGR order, read 8-bit files as 24-bit and leaked

---
 modules/core/src/c_src/simplemat.c | 43 ++++++++++++++----------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index beaa8cc..e70ddf2 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -137,41 +137,38 @@ simple_mat smread_bmp(const char *bmpName)
 	int biBitCount = head.biBitCount;
     int lineByte   = (bmpWidth * biBitCount / 8 + 3) / 4 * 4;
 	
+	hypercv_assert(bmpWidth > 0 && bmpHeight > 0 && (biBitCount == 24 || biBitCount == 8), "BMP IMAGE NOT SUPPORTED");
+
+	RGBQUAD pColorTable[256];
 	if (biBitCount == 8)
-	{
-		RGBQUAD *pColorTable = (RGBQUAD *)malloc(sizeof(RGBQUAD) * 1024);
 		fread(pColorTable, sizeof(RGBQUAD), 256, fp);
-	}
 	
 	unsigned char* pBmpBuf = (unsigned char *)malloc(sizeof(unsigned char) * lineByte * bmpHeight);
+	hypercv_assert(pBmpBuf != NULL, "malloc fail");
 	fread(pBmpBuf, 1, lineByte * bmpHeight, fp);
 	fclose(fp);
 
-	for(int i=0;i<bmpHeight/2;i++)
-	{
-		for(int j=0;j<bmpWidth;j++)
-		{
-			for(int k=0;k<channels;k++)
-			{
-				int tmp = pBmpBuf[i*lineByte + j*channels + k];
-				pBmpBuf[i*lineByte + j*channels + k] = pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k];
-				pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k] = tmp;
-			}
-		}
-	}
-	
 	simple_mat res = create_simple_mat(bmpHeight,bmpWidth,1,3);
 	unsigned char* res_data = (unsigned char*)res->data;
 
-	if(lineByte == bmpWidth * biBitCount / 8)
-		memcpy(res_data, pBmpBuf, lineByte*bmpHeight);
-	else
+	// rows are stored bottom-up, pixels as blue, green, red
+	for(int i=0; i<bmpHeight; i++)
 	{
-		for(int i=0; i<bmpHeight; i++)
+		unsigned char* pres = res_data + i*bmpWidth*channels;
+		unsigned char* pbmp = pBmpBuf + (bmpHeight-i-1)*lineByte;
+		for(int j=0; j<bmpWidth; j++)
 		{
-			unsigned char* pres = res_data + i*bmpWidth*channels;
-			unsigned char* pbmp = pBmpBuf + i*lineByte;
-			memcpy(pres, pbmp, bmpWidth*channels);
+			if (biBitCount == 8)
+			{
+				pres[j*channels]     = pColorTable[pbmp[j]].rgbRed;
+				pres[j*channels + 1] = pColorTable[pbmp[j]].rgbGreen;
+				pres[j*channels + 2] = pColorTable[pbmp[j]].rgbBlue;
+			}
+			else
+			{
+				for(int k=0; k<channels; k++)
+					pres[j*channels + k] = pbmp[j*channels + 2-k];
+			}
 		}
 	}
 
-- 
2.43.0


From a918cd17a9db2c133c6c0ca529cc942777daf2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 13/95] fix: smwrite_bmp modified the image it saved, wrote
 uninitialised padding and leaked

---
 modules/core/src/c_src/simplemat.c | 33 ++++++++----------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index e70ddf2..da690bc 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -236,35 +236,20 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 
 	fwrite(&infoHead, sizeof(BmpInfoHeader), 1, fp);
 
-	for(int i=0; i<height/2; i++)
+	// rows are stored bottom-up, pixels as blue, green, red, rows padded to four bytes
+	unsigned char* line = (unsigned char*)calloc(lineByte, 1);
+	hypercv_assert(line != NULL, "malloc fail");
+	for(int i=height-1; i>=0; i--)
 	{
 		for(int j=0; j<width; j++)
-		{
 			for(int k=0; k<channels; k++)
-			{
-				int tempbuf = imgBuf[i*width*channels + j*channels + k];
-				imgBuf[i*width*channels + j*channels + k] = imgBuf[(height-i-1)*width*channels + j*channels + 2-k];
-				imgBuf[(height-i-1)*width*channels + j*channels + 2-k] = tempbuf;
-			}
-
-		}
+				line[j*channels + k] = imgBuf[i*width*channels + j*channels + 2-k];
+		fwrite(line, lineByte, 1, fp);
 	}
+	free(line);
 
-	if(lineByte > width*biBitCount/8)
-	{
-		unsigned char* tmp = (unsigned char*)malloc(height*lineByte);
-		unsigned char* data = tmp ;
-		for(int i=0; i<height; i++)
-		{
-			memcpy(data, imgBuf, width*3);
-			imgBuf += width*3;
-			data += lineByte;
-		}
-		fwrite(tmp, height*lineByte, 1, fp);
-		free(tmp);
-	}
-	else 
-		fwrite(imgBuf, height*lineByte, 1, fp);
+	if(mat != src_mat)
+		delete_simple_mat(mat);
 
 	fclose(fp);
 }
-- 
2.43.0


From be82448d5322a540cdb28dac16062e7a35928570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 14/95] fix: hyper_mat_get_range read outside the source for
 ranges beyond it

---
 modules/process/src/c_src/imageprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 5aa544a..ca88093 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -388,6 +388,7 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, int start_band, int end_row, int end_col, int end_band)
 {
 	hypercv_assert(start_col<end_col && start_row<end_row && start_band<end_band, "start col & start row & start band must < end col & end row & end band");
+	hypercv_assert(start_col>=0 && start_row>=0 && start_band>=0 && end_col<=src_mat->samples && end_row<=src_mat->lines && end_band<=src_mat->bands, "range must be inside the src mat");
 
 	int samples = end_col - start_col;
 	int lines = end_row - start_row;
-- 
2.43.0


From b066c5a89ee1b3b9ca5bd70de71b59e158e60dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 15/95] fix: simple_mat_2_hyper_mat addressed bands in elements
 instead of bytes

---
 modules/process/src/c_src/imageprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index ca88093..3a7cc16 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -536,10 +536,13 @@ void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 	hypercv_assert(band<=bands&&band>0,"band<bands");
 	hypercv_assert(cmpstr(dst_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
 
-	char* dst = (char*)dst_mat->data + samples*lines*(band-1);
+	hypercv_assert(src_mat->data_type == dst_mat->data_type,"simple mat data type unequal to hyper mat");
+
+	int elemsize = get_elemsize(dst_mat->data_type);
+	char* dst = (char*)dst_mat->data + samples*lines*(band-1)*elemsize;
 	char* src = (char*)src_mat->data;
 
-	memcpy(dst,src,samples*lines);
+	memcpy(dst,src,samples*lines*elemsize);
 }
 
 /**
-- 
2.43.0


From f591668869bafa55229bd1e038a87f41590b223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 16/95] fix: hyper_mat_2_simple_mat did not check the band and
 left a stale element size

---
 modules/process/src/c_src/imageprocess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 3a7cc16..c57ea23 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -507,6 +507,7 @@ simple_mat reshape_hypermat_2_simplemat(hyper_mat src_mat, int dst_rows, int dst
 void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 {
 	hypercv_assert(cmpstr(src_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
+	hypercv_assert(band>0 && band<=src_mat->bands, "band must be in 1..bands");
 	int samples,lines;
 	samples = src_mat -> samples;
 	lines = src_mat -> lines;
@@ -515,6 +516,7 @@ void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 	dst_mat -> data_type = src_mat -> data_type;
     
 	int elemsize = get_elemsize(src_mat->data_type);
+	dst_mat -> elem_size = elemsize;
 	char* data = (char*)src_mat->data+(samples*lines*(band-1)*elemsize);
 
 	memcpy((char*)dst_mat->data,(char*)data,samples*lines*elemsize);
-- 
2.43.0


From 8c5ba36c3acc1a33c0a0594deed02d456788044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 17/95] fix: float to integer conversions wrapped instead of
 saturating

---
 modules/process/src/c_src/datatypechange.c | 68 ++++++----------------
 1 file changed, 17 insertions(+), 51 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index d345fd9..dab9cfe 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -6,6 +6,16 @@
 
 #include "precomp.h"
 
+// nearest integer (ties to even) of value, limited to [low, high]
+static double round_saturate(double value, double low, double high)
+{
+	if(value <= low)
+		return low;
+	if(value >= high)
+		return high;
+	return rint(value);
+}
+
 /**
  * @brief      data type change .
  * @param[in]  uc_mat    unsigned char image.
@@ -143,7 +153,7 @@ hyper_mat hyper_mat_float2int(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 
 	for(int i=0;i<datasize;i++)
-		data[i]=HYPERCV_ROUND(fdata[i]);
+		data[i]=(int)round_saturate(fdata[i],-2147483648.0,2147483647.0);
 	
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -167,20 +177,9 @@ hyper_mat hyper_mat_float2char(hyper_mat f_mat)
 
 	char* data = dst->data;
 	float* fdata = f_mat->data;
-	int tmp = 0;
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
-	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>127)
-			data[i] = 128;
-		else if(tmp<-127)
-			data[i] = -127;
-		else
-			data[i] = tmp;
-
-	}
+		data[i] = (char)round_saturate(fdata[i],-128.0,127.0);
 		
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -204,11 +203,10 @@ hyper_mat hyper_mat_float2short(hyper_mat f_mat)
 
 	short* data = dst->data;
 	float* fdata = f_mat->data;
-	int tmp = 0;
 	int datasize = samples*lines*bands;
 
 	for(int i=0;i<datasize;i++)
-		data[i] =(short)HYPERCV_ROUND(fdata[i]);
+		data[i] =(short)round_saturate(fdata[i],-32768.0,32767.0);
 		
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -232,16 +230,9 @@ hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
 
 	unsigned short* data = dst->data;
 	float* fdata = f_mat->data;
-	int tmp = 0;
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
-	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-		if(tmp<0)
-			data[i] =0;
-		else
-			data[i] = tmp;
-	}	
+		data[i] = (unsigned short)round_saturate(fdata[i],0.0,65535.0);
 
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -265,20 +256,9 @@ hyper_mat hyper_mat_float2uchar(hyper_mat f_mat)
 
 	unsigned char* data = dst->data;
 	float* fdata = f_mat->data;
-	int tmp = 0;
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
-	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>255)
-			data[i] = 255;
-		else if(tmp<0)
-			data[i] = 0;
-		else
-			data[i] = tmp;
-
-	}	
+		data[i] = (unsigned char)round_saturate(fdata[i],0.0,255.0);
 
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -302,20 +282,9 @@ hyper_mat hyper_mat_float2uint(hyper_mat f_mat)
 
 	unsigned int * data = dst->data;
 	float* fdata = f_mat->data;
-	int tmp = 0;
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
-	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>4294967295)
-			data[i] =4294967295;
-		else if(tmp<0)
-			data[i] = 0;
-		else
-			data[i] = tmp;
-
-	}	
+		data[i] = (unsigned int)round_saturate(fdata[i],0.0,4294967295.0);
 
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -378,10 +347,7 @@ simple_mat simple_mat_float2uchar(simple_mat src)
 	   maxpix = maxpix>src_data[i*cols+j]?maxpix:src_data[i*cols+j];
 	   */
 	for(int i=0;i<rows*cols*cn;i++)
-	{
-		dst_data[i] = HYPERCV_ROUND(src_data[i])<=255?HYPERCV_ROUND(src_data[i]):255;
-		dst_data[i] = dst_data[i]>=0?dst_data[i]:0;
-	}
+		dst_data[i] = (unsigned char)round_saturate(src_data[i],0.0,255.0);
 	return dst;
 }
 
-- 
2.43.0


From 5ea2f7f422aca11af7fa9a59a3a3a9c32092cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 18/95] fix: hypercv_atof lost the sign before trailing
 characters and the sign of exponents

---
 modules/process/src/c_src/datatypechange.c | 61 ++++++++--------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index dab9cfe..bab001f 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -360,6 +360,7 @@ float hypercv_atof(const char *str)
 {
 	const char *p = str;
 	int sign = 1;
+	int exponentSign = 1;
 	while(*p == ' ')++p;
 	if(*p == '-')
 	{
@@ -369,54 +370,38 @@ float hypercv_atof(const char *str)
 
 	else if (*p == '+')
 		++p;
-	int hasDot = 0,hasE = 0;
-	float integerPart = 0.0,decimalPart = 0.0;
+	double value = 0.0;
+	int decimalDigits = 0;
+	int exponential = 0;
 
-	for (; *p; ++p)
-	{
-		if (isdigit(*p)) 
-			integerPart = 10 * integerPart + *p - '0';
-		else if (*p == '.')
-		{
-			hasDot = 1;
-			p++;
-			break;
-		}
-		else if (*p == 'e' || *p == 'E')
+	for (; isdigit((unsigned char)*p); ++p)
+		value = 10 * value + (*p - '0');
+
+	if (*p == '.')
+		for (++p; isdigit((unsigned char)*p); ++p)
 		{
-			hasE = 1;
-			p++;
-			break;
+			value = 10 * value + (*p - '0');
+			decimalDigits++;
 		}
-		else
-			return integerPart;
-	}
-
-	int decimalDigits = 1;
-	int exponential = 0;    
 
-	for (; *p; p++)
+	if (*p == 'e' || *p == 'E')
 	{
-		if (hasDot && isdigit(*p))
-			decimalPart += (*p - '0') / pow(10, decimalDigits++);
-		else if (hasDot && (*p == 'e' || *p == 'E'))
+		++p;
+		if (*p == '-')
 		{
-			integerPart += decimalPart;
-			decimalPart = 0.0;
-			hasE = 1;
+			exponentSign = -1;
 			++p;
-			break;
 		}
-		else if (hasE && isdigit(*p))
-			exponential = 10 * exponential + *p - '0';
-		else break;
+		else if (*p == '+')
+			++p;
+		for (; isdigit((unsigned char)*p) && exponential < 10000; ++p)
+			exponential = 10 * exponential + (*p - '0');
 	}
 
-	if (hasE && hasDot)
-		for (; *p; p++)
-			if (isdigit(*p))
-				exponential = 10 * exponential + *p - '0';
-	return sign * (integerPart * pow(10, exponential) + decimalPart);
+	exponential = exponentSign * exponential - decimalDigits;
+	if (exponential < 0)
+		return (float)(sign * (value / pow(10, -exponential)));
+	return (float)(sign * (value * pow(10, exponential)));
 
 }
 
-- 
2.43.0


From 39083d5fcfb6acb38e84ce49f5c809fd72bd34ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 19/95] fix: otsuThreshold read single-channel images as
 three-channel ones, beyond their end

---
 modules/process/src/c_src/threshold.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 5323e6f..1490ca5 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -8,7 +8,9 @@
 
 int otsuThreshold(simple_mat img)
 {
-	
+	hypercv_assert(img!=NULL,"input mat cannot be NULL");
+	hypercv_assert(img->data_type == 1&&(img->channels == 1||img->channels == 3),"otsu use in gray or color image");
+
 	int Threshold = 0;//阈值
 	int height = img->rows;
 	int width  = img->cols;
@@ -32,7 +34,11 @@ int otsuThreshold(simple_mat img)
 	{//计算直方图
 		for(int j=0;j<width;j++)
 		{
-			double temp =data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
+			double temp;
+			if(channels == 1)
+				temp = data[i*step + j];
+			else
+				temp =data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
 			temp = temp<0? 0:temp;
 			temp = temp>255? 255:temp;
 			Histogram[(int)temp]++;
-- 
2.43.0


From 53a49ed67937614da85e4882947f09d008c91241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 20/95] fix: otsu binarisation put the pixels at the threshold
 into the wrong class

---
 modules/process/src/c_src/threshold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 1490ca5..e579841 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -210,7 +210,7 @@ void hypercv_threshold_otsu(simple_mat src_mat, simple_mat dst_mat)
 
 	for(int i=0;i<rows*cols*channels;i++)
 	{
-		if(src_data[i]<thresh)
+		if(src_data[i]<=thresh)
 			dst_data[i] = 0;
 		else
 			dst_data[i] = 255;
-- 
2.43.0


From 19515d5586de51717ccc7f2a5fd953c386e4bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 21/95] fix: constant border extrapolation left images of
 length one

---
 modules/core/include/c_include/type.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/c_include/type.h b/modules/core/include/c_include/type.h
index 6af5017..e19445c 100644
--- a/modules/core/include/c_include/type.h
+++ b/modules/core/include/c_include/type.h
@@ -137,7 +137,7 @@ static inline int HYPERCV_ROUND( double value )
  **/
 static inline int hypercv_border_Interpolate(int p, int len, unsigned int border_type )
 {
-	hypercv_assert(len>=0,"length of src must >= 0");
+	hypercv_assert(len>0,"length of src must > 0");
 	hypercv_assert(border_type == BORDER_REFLECT
 			||border_type == BORDER_REFLECT_101
 			||border_type == BORDER_REPLICATE
@@ -181,7 +181,7 @@ static inline int hypercv_border_Interpolate(int p, int len, unsigned int border
 			}
 		case BORDER_CONSTANT:
 			{
-				index = 1;
+				index = len > 1 ? 1 : 0;
 				break;
 			}
 	}
-- 
2.43.0


From 9199d3f0e9dced309466d7d11e4c28045efc03e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 22/95] fix: hypercv_copy_make_border copied one byte per
 element whatever the element type

---
 modules/process/src/c_src/filter.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 3ce9c5e..4d233e9 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -46,9 +46,21 @@ static void hypercv_make_const_border(simple_mat src, simple_mat dst, int top, i
 	int dst_cols = dst->cols;
 	int channels = src->channels;
 
+	int elemsize = get_elemsize(src->data_type);
+	int pixsize = channels*elemsize;
+
 	unsigned char* src_data = (unsigned char*)src->data;
 	unsigned char* dst_data = (unsigned char*)dst->data;
 
+	// value as an element of the image
+	unsigned char elem[8] = {0};
+	switch(src->data_type)
+	{
+		case 4: { float v = value; memcpy(elem,&v,sizeof(v)); break; }
+		case 5: { double v = value; memcpy(elem,&v,sizeof(v)); break; }
+		default: { unsigned long int v = value; memcpy(elem,&v,elemsize); break; }
+	}
+
 	for(int i=0;i<dst_rows;i++)
 	{
 		for(int j=0;j<dst_cols;j++)
@@ -56,13 +68,10 @@ static void hypercv_make_const_border(simple_mat src, simple_mat dst, int top, i
 			if(i-top<0||i-top>=src_rows||j-left<0||j-left>=src_cols)
 			{
 				for(int m=0;m<channels;m++)
-					dst_data[i*dst_cols*channels+j*channels+m] = value;
-			}
-			else{
-			
-				for(int m=0; m<channels; m++)
-					dst_data[i*dst_cols*channels+j*channels+m] = src_data[(i-top)*src_cols*channels+(j-left)*channels+m];
+					memcpy(dst_data+(i*dst_cols+j)*pixsize+m*elemsize,elem,elemsize);
 			}
+			else
+				memcpy(dst_data+(i*dst_cols+j)*pixsize,src_data+((i-top)*src_cols+(j-left))*pixsize,pixsize);
 		}
 	}
 
@@ -544,8 +553,7 @@ simple_mat hypercv_copy_make_border(simple_mat src, int top, int bottom, int lef
 			int index_j;
 			index_j = hypercv_border_Interpolate(j-left,src_cols,border_type);
 			index_i = hypercv_border_Interpolate(i-top,src_rows,border_type);	
-			for(int m=0;m<channels;m++)
-				dst_data[i*dst_cols*channels+j*channels+m] = src_data[(index_i)*src_cols*channels+(index_j)*channels+m];
+			memcpy(dst_data+(i*dst_cols+j)*channels*elemsize,src_data+(index_i*src_cols+index_j)*channels*elemsize,channels*elemsize);
 		}
 
 	}
-- 
2.43.0


From 75fb952cb6205aacda08e919263b92081898f6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 23/95] fix: flips moved one byte per element whatever the
 element type

---
 modules/process/src/c_src/GeometricTransformation.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 5ec5845..26f8080 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -14,14 +14,16 @@ void simple_mat_flip_horizontal(simple_mat src_mat,simple_mat dst_mat)
 	int cols = src_mat->cols;
 	int channels = src_mat->channels;
 	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels,"src_mat size != dst_mat size");
+	hypercv_assert(src_mat->data_type == dst_mat->data_type,"src_mat data_type != dst_mat data_type");
+	int pixsize = channels*get_elemsize(src_mat->data_type);
 
 	unsigned char* src_data = (unsigned char*)src_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
 
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
-			for(int k=0;k<channels;k++)
-			dst_data[i*cols*channels+j*channels+k] = src_data[i*cols*channels+(cols-1-j)*channels+k];
+			for(int k=0;k<pixsize;k++)
+			dst_data[i*cols*pixsize+j*pixsize+k] = src_data[i*cols*pixsize+(cols-1-j)*pixsize+k];
 }
 
 
@@ -33,13 +35,15 @@ void simple_mat_flip_vertical(simple_mat src_mat,simple_mat dst_mat)
 	int cols = src_mat->cols;
 	int channels = src_mat->channels;
 	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels,"src_mat size != dst_mat size");
+	hypercv_assert(src_mat->data_type == dst_mat->data_type,"src_mat data_type != dst_mat data_type");
+	int pixsize = channels*get_elemsize(src_mat->data_type);
 
 	unsigned char* src_data = (unsigned char*)src_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
 
 	for(int i=0;i<rows;i++)
-		for(int j=0;j<cols*channels;j++)
-				dst_data[i*cols*channels+j] = src_data[(rows-1-i)*cols*channels+j];
+		for(int j=0;j<cols*pixsize;j++)
+				dst_data[i*cols*pixsize+j] = src_data[(rows-1-i)*cols*pixsize+j];
 	
 }
 
-- 
2.43.0


From cee140fb6fe7e4588c7d9f022745c018bf64e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 24/95] fix: simple_mat_transport ignored the channels

---
 modules/process/src/c_src/imageprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index c57ea23..5307382 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -557,10 +557,10 @@ void simple_mat_transport(simple_mat res,simple_mat src)
 	int rows = res->rows;
 	int cols = res->cols;
 	
-	hypercv_assert(rows == src->cols && cols == src->rows && res->data_type == src->data_type, "data size of transport image equal to srcmat ");
+	hypercv_assert(rows == src->cols && cols == src->rows && res->data_type == src->data_type && res->channels == src->channels, "data size of transport image equal to srcmat ");
 
 	int data_type = src->data_type;
-	int elemsize = get_elemsize(data_type);
+	int elemsize = get_elemsize(data_type)*src->channels;
 
 	char *res_data = (char*)res->data;
 	char *src_data = (char*)src->data;
-- 
2.43.0


From 5bb3ddd39fd4fc10c385a6a8d8512f3a0ba35cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 25/95] fix: hyper_mat_transport wrote outside a destination of
 a smaller element type

---
 modules/process/src/c_src/spectralprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 4eaf7f7..181585d 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -191,6 +191,7 @@ void hyper_mat_transport(hyper_mat dst_mat, hyper_mat src_mat)
 	int d_lines = dst_mat->lines;
 	int bands = src_mat->bands;
 	hypercv_assert(s_samples == d_lines && s_lines == d_samples&& bands == dst_mat->bands,"size must equal");
+	hypercv_assert(src_mat->data_type == dst_mat->data_type,"data type must equal");
 	char* src =(char*)src_mat->data;
 	char* dst =(char*)dst_mat->data;
 	int elemsize = get_elemsize(src_mat ->data_type);
-- 
2.43.0


From 62525aa3749771b50de93eb62c2f2c0c870eb750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 26/95] fix: hypercv_filter2D changed the type of its output
 instead of checking it and added to its old content

---
 modules/process/src/c_src/filter.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 4d233e9..8fb8764 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -96,7 +96,7 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 {
 	hypercv_assert(src!= NULL&&dst!=NULL,"input mat cannot be null");
 	hypercv_assert(kernel!=NULL,"kernel cannot be null");
-	hypercv_assert(dst->data_type = 4,"dst data_type == float");
+	hypercv_assert(dst->data_type == 4,"dst data_type == float");
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -111,6 +111,9 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 	{
 		for(int j=0;j<cols;j++)
 		{
+			for(int m=0; m<cn; m++)
+				dst_data[i*cols*cn+j*cn+m] = 0;
+
 			for(int m=0; m<k_rows; m++)
 			{
 				if ((i+m-k_rows/2<0)||(i+m-k_rows/2>=rows))
-- 
2.43.0


From 8263991a5f1de9e4a9a18f75d0b425893189f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 27/95] fix: gaussian blur leaked its kernels and its
 intermediate image

---
 modules/process/src/c_src/filter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 8fb8764..09994db 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -322,6 +322,8 @@ void hypercv_gaussian_blur(simple_mat src_mat, simple_mat dst_mat, int ksize_wid
 	simple_mat kernel_mat_x = gaussian_kernel(ksize_width, sigma1, kdepth);
 	simple_mat kernel_mat_y = gaussian_kernel(ksize_height,sigma2, kdepth);
 	hypercv_gaussian_blur_with_kernel(src_mat, dst_mat, kernel_mat_x, kernel_mat_y, border_type);
+	delete_simple_mat(kernel_mat_x);
+	delete_simple_mat(kernel_mat_y);
 }
 
 /**
@@ -463,6 +465,7 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 			}
 		}
 	}
+	delete_simple_mat(temp_mat);
 }
 
 /**
-- 
2.43.0


From 59ff213d6b759c977fd4df07cf9b6daf57e137a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 28/95] fix: median and mean blur refused every image, and
 their windows, sorting and size were wrong

---
 modules/process/src/c_src/filter.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 09994db..97cb41b 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -11,19 +11,19 @@
 /////////////////////////////////////////////////////////////////////////
 //____________________private function________________________
 
-static void swap(unsigned char a,unsigned char b)
+static void swap(unsigned char* a,unsigned char* b)
 {
-	unsigned char c = a;
-	a = b;
-	b = c;
+	unsigned char c = *a;
+	*a = *b;
+	*b = c;
 }
 
 static unsigned char median_member(unsigned char* array,int size)
 {
-	for(int gap = size/2; gap++; gap/=2)
+	for(int gap = size/2; gap>0; gap/=2)
 		for(int i=gap; i<size; i++)
 			for(int j=i-gap; j>=0 && array[j]>array[j+gap]; j-=gap)
-				swap(array[j],array[j+gap]);
+				swap(&array[j],&array[j+gap]);
 	return array[size/2]; 
 }
 
@@ -151,7 +151,7 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
  **/
 void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
 	hypercv_assert(size%2==1,"size should be odd number");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -171,12 +171,13 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 				for(int m = -size/2;m<=size/2;m++)
 					for(int n = -size/2; n<=size/2;n++)
 						arr[(m+size/2)*size+n+size/2] = src_data[(i+m)*cols+j+n];
-				dst_data[i*cols+j] = median_member(arr,size); 
+				dst_data[i*cols+j] = median_member(arr,size*size); 
 			}
 			else 
 				dst_data[i*cols+j] = src_data[i*cols+j];
 		}
 	}
+	free(arr);
 }
 
 /**
@@ -187,7 +188,7 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
  **/
 void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int data_type = src_mat->data_type;
@@ -195,20 +196,19 @@ void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 
 	unsigned char* src_data = (unsigned char*) src_mat->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat->data;
-	unsigned char* arr = (unsigned char*) malloc(size*size*sizeof(char));
 
 	for(int i=0;i<rows;i++)
 	{
 		for(int j=0;j<cols;j++)
 		{
 		    int sum=0,num=0;
-			for(int m = -size/2;m<size/2;m++)
+			for(int m = -size/2;m<=size/2;m++)
 			{
-				for(int n = -size/2; n<size/2;n++)
+				for(int n = -size/2; n<=size/2;n++)
 				{
-					if((i+m)>=0&&(i+m)<rows&&(j+m)>=0&&(j+m)<cols)
+					if((i+m)>=0&&(i+m)<rows&&(j+n)>=0&&(j+n)<cols)
 					{
-						sum+= src_data[(i+m)*cols+j+m];
+						sum+= src_data[(i+m)*cols+j+n];
 						num++;	 
 					}
 
-- 
2.43.0


From e79cb9458bb7a90757fc807c4a01d8d139204dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 29/95] fix: hypercv_integral did not accumulate along the
 first row and column

---
 modules/process/src/c_src/filter.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 97cb41b..fd446ce 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -497,10 +497,10 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			if(i==0||j==0)
-				dst_data[i*cols+j] = src_data[i*cols+j];
-			else
-				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] + dst_data[i*cols+j-1] + src_data[i*cols+j]-dst_data[(i-1)*cols+j-1];	
+			int above = i>0 ? dst_data[(i-1)*cols+j] : 0;
+			int left = j>0 ? dst_data[i*cols+j-1] : 0;
+			int diag = i>0&&j>0 ? dst_data[(i-1)*cols+j-1] : 0;
+			dst_data[i*cols+j] = above + left + src_data[i*cols+j] - diag;
 		}
 	}
 }
-- 
2.43.0


From 86273646a626fee73fa68fa970c65d43cc6eba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 30/95] fix: morphology addressed rows with the row count as
 the row length

---
 modules/process/src/c_src/morphology.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index c533ba3..0a96363 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -47,7 +47,7 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]!=0)
+			if(src[i*cols+j]!=0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -55,18 +55,18 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 0;
+					dst[i*cols+j] = 0;
 			}
 			else
-				dst[i*rows+j] = 0;
+				dst[i*cols+j] = 0;
 		}
 	}
 }
@@ -111,7 +111,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]==0)
+			if(src[i*cols+j]==0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -119,18 +119,18 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 1;
+					dst[i*cols+j] = 1;
 			}
 			else
-				dst[i*rows+j] = src[i*rows+j];
+				dst[i*cols+j] = src[i*cols+j];
 		}
 	}
 }
-- 
2.43.0


From 9b5e2fe25858e7332312f29f3850ffe1c2000967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 31/95] fix: dilation marked pixels where the element met
 background

---
 modules/process/src/c_src/morphology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index 0a96363..a7095f8 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -119,7 +119,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]!=0)
 								flag = 1;
 						}
 					}
-- 
2.43.0


From a0fdad3df162b32d2c3c1136cebcbaf8e4abeba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 32/95] fix: opening and closing applied their second step to
 the source instead of the first result

---
 modules/process/src/c_src/morphology.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index a7095f8..1555552 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -157,11 +157,19 @@ void hypercv_open(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
 
+	int size = rows*cols*channels*get_elemsize(data_type);
+	simple_mat res = simple_mat_copy(src);
+	simple_mat tmp = simple_mat_copy(src);
+
 	for(int i=0;i<iterations;i++)
 	{
-	    hypercv_corrosion(src,dst,kernel);
-		hypercv_expend(src,dst,kernel);
+	    hypercv_corrosion(res,tmp,kernel);
+		hypercv_expend(tmp,res,kernel);
 	}
+	memcpy(dst->data,res->data,size);
+
+	delete_simple_mat(res);
+	delete_simple_mat(tmp);
 }
 
 /**
@@ -185,11 +193,19 @@ void hypercv_close(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
 
+	int size = rows*cols*channels*get_elemsize(data_type);
+	simple_mat res = simple_mat_copy(src);
+	simple_mat tmp = simple_mat_copy(src);
+
 	for(int i=0;i<iterations;i++)
 	{
-		hypercv_expend(src,dst,kernel);
-	    hypercv_corrosion(src,dst,kernel);
+		hypercv_expend(res,tmp,kernel);
+	    hypercv_corrosion(tmp,res,kernel);
 	}
+	memcpy(dst->data,res->data,size);
+
+	delete_simple_mat(res);
+	delete_simple_mat(tmp);
 }
 
 
-- 
2.43.0


From 88d16f3c81d9e221bd9a4cda29049369ea52d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 33/95] fix: mean and variance read signed types as unsigned
 and ignored half of the element types

---
 modules/core/src/c_src/simplemat.c | 92 ++++++++++++++++++++++++++----
 1 file changed, 80 insertions(+), 12 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index da690bc..e1b0e44 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -266,7 +266,7 @@ float simple_mat_mean(simple_mat mat)
 	int rows = mat -> rows;
 	int cols = mat -> cols;
 
-	float res = 0.0;
+	double res = 0.0;
 
 	switch (mat -> data_type)
 	{
@@ -278,23 +278,57 @@ float simple_mat_mean(simple_mat mat)
 				break;
 			}
 		case 2:
-		case 12:
 			{
-				unsigned short* data = (unsigned short*) mat->data;
+				short* data = (short*)mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
 			}
 		case 3:
 			{
-				unsigned int* data = (unsigned int*) mat->data;
+				int* data = (int*)mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
 			}
 		case 4:
 			{
-				float* data = (float*) mat->data;
+				float* data = (float*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
+		case 5:
+			{
+				double* data = (double*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
+		case 12:
+			{
+				unsigned short* data = (unsigned short*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
+		case 13:
+			{
+				unsigned int* data = (unsigned int*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
+		case 14:
+			{
+				long int* data = (long int*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
+		case 15:
+			{
+				unsigned long int* data = (unsigned long int*)mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
@@ -315,8 +349,8 @@ float simple_mat_variance(simple_mat mat)
 
 	int rows   = mat->rows;
 	int cols   = mat->cols;
-	float res  = 0.0;
-	float mean = simple_mat_mean(mat);
+	double res  = 0.0;
+	double mean = simple_mat_mean(mat);
 	
 	switch (mat -> data_type)
 	{
@@ -328,16 +362,15 @@ float simple_mat_variance(simple_mat mat)
 				break;
 			}
 		case 2:
-		case 12:
 			{
-				unsigned short* data = (unsigned short*)mat->data;
-				for(int i=0;i<rows*cols;i++)
-					res += pow(mean-data[i],2);
+				short* data = (short*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
 				break;
 			}
 		case 3:
 			{
-				unsigned int* data = (unsigned int*)mat->data;
+				int* data = (int*)mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i], 2);
 				break;
@@ -349,6 +382,41 @@ float simple_mat_variance(simple_mat mat)
 					res += pow(mean-data[i], 2);
 				break;
 			}
+		case 5:
+			{
+				double* data = (double*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
+		case 12:
+			{
+				unsigned short* data = (unsigned short*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
+		case 13:
+			{
+				unsigned int* data = (unsigned int*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
+		case 14:
+			{
+				long int* data = (long int*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
+		case 15:
+			{
+				unsigned long int* data = (unsigned long int*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
 	}
 	return res/rows/cols;
 }
-- 
2.43.0


From 364440b9e3a9fdf4a5c421218bd7e22c22bbf818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 34/95] fix: simple_mat_grayscale_statistics refused every call
 and leaked its grey image

---
 modules/core/src/c_src/simplemat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index e1b0e44..1f03681 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -430,7 +430,7 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 {
 	hypercv_assert(mat                  != NULL, "input mat cannot be NULL");
 	hypercv_assert(mat-> data_type      == 1,    "only use in unsigned char image");
-	hypercv_assert(sizeof(gray_statist) == 256,  "gray array error");
+	hypercv_assert(gray_statist         != NULL, "gray array error");
 
 	int rows     = mat->rows;
 	int cols     = mat->cols;
@@ -450,6 +450,9 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 
 	for(int i=0; i<rows*cols; i++)
 		gray_statist[data[i]]++;
+
+	if(tmp != mat)
+		delete_simple_mat(tmp);
 }
 
 
-- 
2.43.0


From b6e804d25635f0ad4003e7e07da652678f1cd7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 35/95] fix: contrast and entropy leaked their grey image

---
 modules/core/src/c_src/simplemat.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 1f03681..a99ee88 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -495,6 +495,9 @@ float simple_mat_contrast_ratio(simple_mat mat)
 		}
 	}
 
+	if(tmp != mat)
+		delete_simple_mat(tmp);
+
 	res = res/(4*(cols-2)*(rows-2)+3*2*(rows-2)+3*2*(cols-2)+2*4);
 	return res;
 }
@@ -514,15 +517,6 @@ float simple_mat_entropy(simple_mat mat)
 	int cols = mat->cols;
 	int channels = mat->channels;
 
-	simple_mat tmp ;
-
-	if(channels != 1)
-		tmp = sm_rgb2gray(mat,0);
-	else 
-		tmp = mat;
-
-	unsigned char* data = (unsigned char*)tmp->data;
-
 	float res =0.0;
 
 	int gray_statist[256]={0};
-- 
2.43.0


From 9dfd56e8fa31449735e903d03dcd620d805fb3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 36/95] fix: weighted grey conversion used weights that do not
 sum to one

---
 modules/process/src/c_src/colortransform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/colortransform.c b/modules/process/src/c_src/colortransform.c
index 0ed2819..5b5b139 100644
--- a/modules/process/src/c_src/colortransform.c
+++ b/modules/process/src/c_src/colortransform.c
@@ -124,7 +124,7 @@ simple_mat sm_rgb2gray(simple_mat rgb_image, int method)
 			}
 			else if (method == 2)
 			{
-				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.578+rgb_data[i*cols*3+j*3+2]*0.114;
+				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.587+rgb_data[i*cols*3+j*3+2]*0.114;
 				gray_data[i*cols+j] = (int)tmp;
 			}
 			else
-- 
2.43.0


From a3ab0e82962c137b218a715327ec824ddab14b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 37/95] fix: spectral_angle_mapper truncated products to
 integers and was undefined for parallel spectra

---
 modules/process/src/c_src/spectralprocess.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 181585d..44aa6a4 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -87,18 +87,24 @@ float spectral_angle_mapper(float * x, float * y, int length)
 {
 	hypercv_assert(x != NULL && y != NULL, "spectral angle mapper input must not be NULL");
 
-	float XY = 0.0, X = 0.0, Y = 0.0;
+	double XY = 0.0, X = 0.0, Y = 0.0;
 
-	float res = 0.0;
+	double res = 0.0;
 
 	for (int i = 0; i<length; i++)
 	{
-		XY += abs(x[i] * y[i]);
-		X += (x[i])*(x[i]);
-		Y += (y[i])*(y[i]);
+		XY += (double)x[i] * y[i];
+		X += (double)x[i] * x[i];
+		Y += (double)y[i] * y[i];
 	}
 
-	res = acos(XY / sqrt(X*Y));
+	res = XY / sqrt(X*Y);
+	// rounding must not push the cosine out of range
+	if(res > 1.0)
+		res = 1.0;
+	else if(res < -1.0)
+		res = -1.0;
+	res = acos(res);
 
 	return res;
 }
-- 
2.43.0


From 866901a717e00d86ad99d73eaa135654cb315c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 38/95] fix: spectrum_SAM_match marked the pixels that differ
 from the spectrum

---
 modules/process/src/c_src/spectralprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 44aa6a4..3604b12 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -40,6 +40,7 @@ simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshol
 {
 	hypercv_assert(bip_mat != NULL,                       "input hyper mat must not be NULL");
 	hypercv_assert(cmpstr(bip_mat->interleave,"bip") == 1,"hyper mat interleave should be bip");
+	hypercv_assert(bip_mat->data_type == 4,               "hyper mat data type should be float");
 	hypercv_assert(spectrum != NULL,                      "spectrum must not be NULL");
 
 	int samples = bip_mat -> samples;
@@ -66,7 +67,7 @@ simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshol
 
 			smat = (char*)match_image->data + i*samples +j;
 			
-			if(res>=threshold)
+			if(res<=threshold)
 				*smat = 1;
 			else
 				*smat = 0;
-- 
2.43.0


From 6e0088aca3e18f22789bccd438eff595ac1e4a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 39/95] fix: read_spectrum_file wrote past its buffer for
 longer files and never ended on malformed ones

---
 modules/process/src/c_src/spectralprocess.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 3604b12..8cf1d07 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -122,17 +122,14 @@ float* read_spectrum_file(const char* sp_path, int length)
 
 	hypercv_assert(fp != NULL, "can not open files");
 
-	float* spectrum = (float*)malloc(length*sizeof(float));
-
-	float* sp = spectrum;
+	hypercv_assert(length > 0, "length of spectrum must > 0");
+	float* spectrum = (float*)calloc(length,sizeof(float));
+	hypercv_assert(spectrum != NULL, "malloc fail");
 
 	float temp = 0;
 
-	while (fscanf(fp, "%f", &temp) != EOF)
-	{
-		*sp = temp;
-		sp++;
-	}
+	for (int i = 0; i < length && fscanf(fp, "%f", &temp) == 1; i++)
+		spectrum[i] = temp;
 
 	fclose(fp);
 	return spectrum;
-- 
2.43.0


From 44e0ce009b54afaf55b1c656be3116f2297fc747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 40/95] fix: hyper_mat_mean read any element type as float

---
 modules/process/src/c_src/spectralprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 8cf1d07..9d790cb 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -165,7 +165,7 @@ void hyper_mat_mean(hyper_mat bip_mat, simple_mat dst_mat)
 	int lines = bip_mat -> lines;
 	int bands = bip_mat -> bands;
 	hypercv_assert(samples == dst_mat -> cols&&lines == dst_mat->rows,"dst_mat size == bip_mat size");
-	hypercv_assert(dst_mat->data_type == 4,"simple mat datatype ==4");
+	hypercv_assert(dst_mat->data_type == 4 && bip_mat->data_type == 4,"simple mat datatype ==4");
 //todo other data type
 	float* src_data = (float*)bip_mat->data;
 	float* dst_data = (float*)dst_mat->data;
-- 
2.43.0


From 69a5785b4a90720174bf883eb17dd87cfd4d311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 41/95] fix: relative correction indexed its coefficients with
 the band count

---
 .../src/c_src/RadiometricCalibration.c        | 140 +++++++++---------
 1 file changed, 70 insertions(+), 70 deletions(-)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index f544fd0..a822015 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -1,70 +1,70 @@
-#include "precomp.h"
-
-/**
-* @brief      hyper_mat relative correction.
-* @param[in]  bip_mat      hyper mat.
-* @param[in]  coefficient  correction coefficient.
-* @retval     hyper_mat    hyper image mat.
-**/
-hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
-{
-	int samples = bip_mat->samples;
-	int lines = bip_mat->lines;
-	int bands = bip_mat->bands;
-
-	unsigned short * bipdata = (unsigned short*)bip_mat->data;
-
-	hyper_mat res = create_hyper_mat(samples,lines,bands,4,bip_mat->interleave);
-	
-	float* res_data = (float*)res->data;
-
-	for (int i = 0; i < lines; i++)
-	{
-		for (int j = 0; j < samples; j++)
-		{
-			for (int k = 0; k < bands; k++)
-			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*bands + j];
-			}
-		}
-	}
-	return res;
-}
-
-/**
-* @brief      hyper_mat absolute correction.
-* @param[in]  bip_mat      hyper mat.
-* @param[in]  coefficient  correction coefficient.
-* @retval     hyper_mat    hyper image mat.
-**/
-hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
-{
-	int samples = bip_mat->samples;
-	int lines = bip_mat->lines;
-	int bands = bip_mat->bands;
-
-	float* bipdata = (float*)bip_mat->data;
-
-	hyper_mat res = create_hyper_mat(samples, lines, bands, 4, bip_mat->interleave);
-
-	float* res_data = (float*)res->data;
-
-	for (int i = 0; i < lines; i++)
-	{
-		for (int j = 0; j < samples; j++)
-		{
-			for (int k = 0; k < bands; k++)
-			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k];
-			}
-		}
-	}
-	return res;
-}
-
-
-
-
-
-
-
+#include "precomp.h"
+
+/**
+* @brief      hyper_mat relative correction.
+* @param[in]  bip_mat      hyper mat.
+* @param[in]  coefficient  correction coefficient.
+* @retval     hyper_mat    hyper image mat.
+**/
+hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
+{
+	int samples = bip_mat->samples;
+	int lines = bip_mat->lines;
+	int bands = bip_mat->bands;
+
+	unsigned short * bipdata = (unsigned short*)bip_mat->data;
+
+	hyper_mat res = create_hyper_mat(samples,lines,bands,4,bip_mat->interleave);
+	
+	float* res_data = (float*)res->data;
+
+	for (int i = 0; i < lines; i++)
+	{
+		for (int j = 0; j < samples; j++)
+		{
+			for (int k = 0; k < bands; k++)
+			{
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
+			}
+		}
+	}
+	return res;
+}
+
+/**
+* @brief      hyper_mat absolute correction.
+* @param[in]  bip_mat      hyper mat.
+* @param[in]  coefficient  correction coefficient.
+* @retval     hyper_mat    hyper image mat.
+**/
+hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
+{
+	int samples = bip_mat->samples;
+	int lines = bip_mat->lines;
+	int bands = bip_mat->bands;
+
+	float* bipdata = (float*)bip_mat->data;
+
+	hyper_mat res = create_hyper_mat(samples, lines, bands, 4, bip_mat->interleave);
+
+	float* res_data = (float*)res->data;
+
+	for (int i = 0; i < lines; i++)
+	{
+		for (int j = 0; j < samples; j++)
+		{
+			for (int k = 0; k < bands; k++)
+			{
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k];
+			}
+		}
+	}
+	return res;
+}
+
+
+
+
+
+
+
-- 
2.43.0


From ad19a2bf0d1e5a4d3e342bfd9fa4fac22ae2c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 42/95] fix: radiometric corrections dropped the wavelengths
 and read any type and layout

---
 modules/process/src/c_src/RadiometricCalibration.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index a822015..673a0ba 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -8,13 +8,16 @@
 **/
 hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 {
+	hypercv_assert(bip_mat != NULL && coefficient != NULL, "input must not be NULL");
+	hypercv_assert(cmpstr(bip_mat->interleave, "bip") == 1, "hyper mat interleave should be bip");
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
 
+	hypercv_assert(bip_mat->data_type == 12, "hyper mat data type should be unsigned short");
 	unsigned short * bipdata = (unsigned short*)bip_mat->data;
 
-	hyper_mat res = create_hyper_mat(samples,lines,bands,4,bip_mat->interleave);
+	hyper_mat res = create_hyper_mat_with_data(samples, lines, bands, 4, bip_mat->interleave, NULL, bip_mat->wavelength);
 	
 	float* res_data = (float*)res->data;
 
@@ -39,13 +42,16 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 **/
 hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 {
+	hypercv_assert(bip_mat != NULL && coefficient != NULL, "input must not be NULL");
+	hypercv_assert(cmpstr(bip_mat->interleave, "bip") == 1, "hyper mat interleave should be bip");
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
 
+	hypercv_assert(bip_mat->data_type == 4, "hyper mat data type should be float");
 	float* bipdata = (float*)bip_mat->data;
 
-	hyper_mat res = create_hyper_mat(samples, lines, bands, 4, bip_mat->interleave);
+	hyper_mat res = create_hyper_mat_with_data(samples, lines, bands, 4, bip_mat->interleave, NULL, bip_mat->wavelength);
 
 	float* res_data = (float*)res->data;
 
-- 
2.43.0


From 3d1ddf3191e5f0dce973a3c1323836a0f87489f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 43/95] fix: image pyramids leaked their intermediate images

---
 modules/process/src/c_src/GeometricTransformation.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 26f8080..e146808 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -103,7 +103,8 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 		for(int j=0;j<dst_cols;j++)
 			for(int m=0;m<channels;m++)
 			  dst_data[i*dst_cols*channels+j*channels+m] = tmp_data[2*i*src->cols*channels+2*j*channels+m];
-	
+
+	delete_simple_mat(tmp);
 }
 
 void hypercv_pyramid_up(simple_mat src, simple_mat dst)
@@ -152,6 +153,9 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 		kernel_data[i]=kernel_data[i]*2;
 
 	hypercv_gaussian_blur_with_kernel(tmp,dst,kernel,kernel,1);
+
+	delete_simple_mat(tmp);
+	delete_simple_mat(kernel);
 }
 
 
-- 
2.43.0


From 347dfed4303e64618a28e19c07a1d368cb048061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 44/95] fix: image pyramids wrote past destinations with fewer
 channels and misread other element types

---
 modules/process/src/c_src/GeometricTransformation.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index e146808..c7a599d 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -87,7 +87,8 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 	hypercv_assert(src_rows>=2&&src_cols>=2,"input mat size must > 2*2");
 	hypercv_assert(dst != NULL, "dst mat == null");
 	hypercv_assert(dst->rows ==(int)((src_rows+1)/2) && dst->cols==(int)((src_cols+1)/2),"dst size error");
-	hypercv_assert(dst->data_type == src->data_type, "dst data_type error");
+	hypercv_assert(dst->data_type == src->data_type && dst->channels == channels, "dst data_type error");
+	hypercv_assert(data_type == 1, "only use in unsigned char image");
 	
 	simple_mat tmp = create_simple_mat(src_rows,src_cols,data_type,channels);
 
@@ -119,7 +120,8 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 	hypercv_assert(src_rows>=2&&src_cols>=2,"input mat size must > 2*2");
 	hypercv_assert(dst != NULL, "dst mat == null");
 	hypercv_assert(dst->rows == src_rows*2 && dst->cols== src_cols*2,"dst size error");
-	hypercv_assert(dst->data_type == src->data_type, "dst data_type error");
+	hypercv_assert(dst->data_type == src->data_type && dst->channels == channels, "dst data_type error");
+	hypercv_assert(data_type == 1, "only use in unsigned char image");
 	
 	simple_mat tmp = simple_mat_copy(dst);
 
-- 
2.43.0


From f91658c80f05e63d7c4989971cbff401d51daeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 45/95] fix: image addition of different sizes or types mixed
 up rows and wrote outside the destination

---
 modules/process/src/c_src/imageprocess.c | 32 +++++++-----------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 5307382..ed34b9a 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -576,19 +576,12 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 {
 	hypercv_assert(mat1!=NULL&&mat2!=NULL&&dst_mat!=NULL,"input mat cannot be empty");
 	hypercv_assert(mat1->channels == mat2->channels,"input mat channels error");
-	
-	int rows,cols;
-	int channels = mat1->channels;
-	
-	if(mat1->rows>=mat2->rows)
-		rows = mat2->rows;
-	else
-		rows = mat1->rows;
+	hypercv_assert(mat1->rows == mat2->rows && mat1->cols == mat2->cols && mat1->rows == dst_mat->rows && mat1->cols == dst_mat->cols && mat1->channels == dst_mat->channels,"input mat size error");
+	hypercv_assert(mat1->data_type == 1 && mat2->data_type == 1 && dst_mat->data_type == 1,"input mat data type error");
 
-	if(mat1->cols>=mat2->cols)
-		cols = mat2->cols;
-	else
-		cols = mat1->cols;
+	int rows = mat1->rows;
+	int cols = mat1->cols;
+	int channels = mat1->channels;
 
 	unsigned char* data1 = (unsigned char*)mat1->data;
 	unsigned char* data2 = (unsigned char*)mat2->data;
@@ -606,19 +599,12 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 {
 	hypercv_assert(mat1!=NULL&&mat2!=NULL&&dst_mat!=NULL,"input mat cannot be empty");
 	hypercv_assert(mat1->channels == mat2->channels,"input mat channels error");
+	hypercv_assert(mat1->rows == mat2->rows && mat1->cols == mat2->cols && mat1->rows == dst_mat->rows && mat1->cols == dst_mat->cols && mat1->channels == dst_mat->channels,"input mat size error");
+	hypercv_assert(mat1->data_type == 4 && mat2->data_type == 4 && dst_mat->data_type == 4,"input mat data type error");
 
-	int rows,cols;
+	int rows = mat1->rows;
+	int cols = mat1->cols;
 	int channels = mat1->channels;
-	
-	if(mat1->rows>=mat2->rows)
-		rows = mat2->rows;
-	else
-		rows = mat1->rows;
-
-	if(mat1->cols>=mat2->cols)
-		cols = mat2->cols;
-	else
-		cols = mat1->cols;
 
 	float* data1 = (float*)mat1->data;
 	float* data2 = (float*)mat2->data;
-- 
2.43.0


From 81ff36857a38bb28f1f37526f20641d2b22ca4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 46/95] fix: simple_mat_log left all but the first channel's
 worth of pixels untouched

---
 modules/process/src/c_src/imageprocess.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index ed34b9a..efa0e3f 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -620,15 +620,16 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 void simple_mat_log(simple_mat src_mat, simple_mat dst_mat)
 {
 	hypercv_assert(src_mat->data_type==4&&dst_mat->data_type == 4 , "input mat must be float mat");
-	hypercv_assert(src_mat->rows == dst_mat->rows && src_mat->cols == dst_mat->cols, "src mat size == dst_mat size");
+	hypercv_assert(src_mat->rows == dst_mat->rows && src_mat->cols == dst_mat->cols && src_mat->channels == dst_mat->channels, "src mat size == dst_mat size");
 
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
+	int channels = src_mat->channels;
 	
 	float* src_data = (float*)src_mat->data;
 	float* dst_data = (float*)dst_mat->data;
 
-	for(int i=0;i<rows*cols;i++)
+	for(int i=0;i<rows*cols*channels;i++)
 		dst_data[i] = log(src_data[i]);
 }
 
-- 
2.43.0


From f4eac9072f02ebe848616ce9980a4da35211a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 47/95] fix: vector_init compiles and drops what the vector
 held

---
 modules/core/include/c_include/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/c_include/vector.h b/modules/core/include/c_include/vector.h
index 00970b2..5368492 100644
--- a/modules/core/include/c_include/vector.h
+++ b/modules/core/include/c_include/vector.h
@@ -164,9 +164,9 @@ vector_set_size((vec), vector_size(vec) + 1); \
 
 #define vector_init(vec,value,size) \
 	do{\
-		if(!vec)                                      \
+		if(vec)                                       \
 		{                                             \
-			vector_free(vec)                          \
+			vector_free(vec);                         \
 		}                                             \
 		size_t __temp_iter = 0;                       \
 		if(size)                                      \
-- 
2.43.0


From f7541ff2af35f0ae0248af6a2b9abd8bdb3d742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 48/95] fix: vector_pop_back leaves an empty vector empty

---
 modules/core/include/c_include/vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/core/include/c_include/vector.h b/modules/core/include/c_include/vector.h
index 5368492..0f4a33d 100644
--- a/modules/core/include/c_include/vector.h
+++ b/modules/core/include/c_include/vector.h
@@ -80,7 +80,8 @@
  */
 #define vector_pop_back(vec) \
 	do {                                              \
-		vector_set_size((vec), vector_size(vec) - 1); \
+		if(!vector_empty(vec))                        \
+			vector_set_size((vec), vector_size(vec) - 1); \
 	} while(0)
 
 /**
-- 
2.43.0


From 2ed78c35c06134add29f18af9157d8e1f55dd8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 49/95] fix: matrix products do not add to what the output held

---
 modules/process/src/c_src/matrixprocess.c | 24 +++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 8e8dc98..5eed698 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -12,8 +12,11 @@ void MulMatrix_char(char *x,char *y,char*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -26,8 +29,11 @@ void MulMatrix_uchar(unsigned char *x,unsigned char *y, unsigned char*z, int m,i
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -40,8 +46,11 @@ void MulMatrix_short(short *x,short *y,short*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -54,8 +63,11 @@ void MulMatrix_ushort(unsigned short *x,unsigned short *y,unsigned short *z, int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //矩阵乘法
@@ -69,8 +81,11 @@ void MulMatrix_int(int *x,int *y,int*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -83,8 +98,11 @@ void MulMatrix_uint(unsigned int *x, unsigned int *y, unsigned int *z, int m,int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -97,8 +115,11 @@ void MulMatrix_float(float *x,float *y, float* z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -111,8 +132,11 @@ void MulMatrix_double(double *x, double *y, double*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //距阵转置
-- 
2.43.0


From 51788beb01fdde521f49370bd66fef333f92ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 50/95] fix: integer correlation matrices do not overflow
 before the division

---
 modules/process/src/c_src/matrixprocess.c | 84 ++++++++++++++++-------
 1 file changed, 60 insertions(+), 24 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 5eed698..c1973dc 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -323,50 +323,86 @@ void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m
 
 void correlation_matrix_uchar(unsigned char* res, unsigned char* mat1, unsigned char* mat2, int l, int n, int m)
 {
-	MulMatrix_uchar(mat1,mat2,res,l,n,m);
-
-	for(int i=0; i<l*m; i++)
-		res[i] =(int)(res[i]/n);
+	for(int i=0; i<l; i++)
+	{
+		for(int j=0; j<m; j++)
+		{
+			long int sum = 0;
+			for(int k=0; k<n; k++)
+				sum += (long int)mat1[i*n+k]*mat2[k*m+j];
+			res[i*m+j] = (unsigned char)(sum/n);
+		}
+	}
 }
 
 void correlation_matrix_char(char* res, char* mat1, char* mat2, int l, int n, int m)
 {
-	MulMatrix_char(mat1,mat2,res,l,n,m);
-
-	for(int i=0; i<l*m; i++)
-		res[i] =(int)(res[i]/n);
+	for(int i=0; i<l; i++)
+	{
+		for(int j=0; j<m; j++)
+		{
+			long int sum = 0;
+			for(int k=0; k<n; k++)
+				sum += (long int)mat1[i*n+k]*mat2[k*m+j];
+			res[i*m+j] = (char)(sum/n);
+		}
+	}
 }
 
 void correlation_matrix_short(short* res, short* mat1, short* mat2, int l, int n, int m)
 {
-	MulMatrix_short(mat1,mat2,res,l,n,m);
-
-	for(int i=0; i<l*m; i++)
-		res[i] =(int)(res[i]/n);
+	for(int i=0; i<l; i++)
+	{
+		for(int j=0; j<m; j++)
+		{
+			long int sum = 0;
+			for(int k=0; k<n; k++)
+				sum += (long int)mat1[i*n+k]*mat2[k*m+j];
+			res[i*m+j] = (short)(sum/n);
+		}
+	}
 }
 
 void correlation_matrix_ushort(unsigned short* res, unsigned short* mat1,unsigned short* mat2, int l, int n, int m)
 {
-	MulMatrix_ushort(mat1,mat2,res,l,n,m);
-
-	for(int i=0; i<l*m; i++)
-		res[i] =(int)(res[i]/n);
+	for(int i=0; i<l; i++)
+	{
+		for(int j=0; j<m; j++)
+		{
+			long int sum = 0;
+			for(int k=0; k<n; k++)
+				sum += (long int)mat1[i*n+k]*mat2[k*m+j];
+			res[i*m+j] = (unsigned short)(sum/n);
+		}
+	}
 }
 
 void correlation_matrix_int(int* res, int* mat1, int* mat2, int l, int n, int m)
 {
-	MulMatrix_int(mat1,mat2,res,l,n,m);
-
-	for(int i=0; i<l*m; i++)
-		res[i] =(int)(res[i]/n);
+	for(int i=0; i<l; i++)
+	{
+		for(int j=0; j<m; j++)
+		{
+			long int sum = 0;
+			for(int k=0; k<n; k++)
+				sum += (long int)mat1[i*n+k]*mat2[k*m+j];
+			res[i*m+j] = (int)(sum/n);
+		}
+	}
 }
 
 void correlation_matrix_uint(unsigned int* res,unsigned  int* mat1, unsigned int* mat2, int l, int n, int m)
 {
-	MulMatrix_uint(mat1,mat2,res,l,n,m);
-
-	for(int i=0; i<l*m; i++)
-		res[i] =(int)(res[i]/n);
+	for(int i=0; i<l; i++)
+	{
+		for(int j=0; j<m; j++)
+		{
+			long int sum = 0;
+			for(int k=0; k<n; k++)
+				sum += (long int)mat1[i*n+k]*mat2[k*m+j];
+			res[i*m+j] = (unsigned int)(sum/n);
+		}
+	}
 }
 
 void correlation_matrix_float(float* res, float* mat1, float* mat2, int l, int n, int m)
-- 
2.43.0


From 76f9ef3a80f00e5c0d0843481dc4a03bb522b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 51/95] fix: matrix inversion leaves its input alone and pivots
 on the largest element

---
 modules/process/src/c_src/matrixprocess.c | 27 ++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index c1973dc..21291c7 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -463,19 +463,25 @@ void invert_matrix_float(float* res, float* mat, int m)
 {
 	set_identity_matrix_float(res,m);
 	int i,j,r;
+	float* src = mat;
+	mat = (float*)malloc(m*m*sizeof(float));
+	hypercv_assert(mat != NULL,"malloc fail");
+	memcpy(mat,src,m*m*sizeof(float));
 	for(i=0;i<m;i++)
 	{
-		if(mat[i*m+i] == 0.0)
+		// the largest remaining element of the column is the pivot
+		int pivot = i;
+		for(r=i+1;r<m;r++)
 		{
-			for(r=i+1;r<m;r++)
-			{
-				if(mat[r*m+i]!=0.0)
-					break;
-			}
-			if(r == m)
-				return;
-			swap_rows_float(mat,m,m,i,r);
-			swap_rows_float(res,m,m,i,r);
+			if(fabs(mat[r*m+i])>fabs(mat[pivot*m+i]))
+				pivot = r;
+		}
+		if(mat[pivot*m+i] == 0.0)
+			break;
+		if(pivot != i)
+		{
+			swap_rows_float(mat,m,m,i,pivot);
+			swap_rows_float(res,m,m,i,pivot);
 		}
 		float scalar = 1.0/mat[i*m+i];
 		matrix_row_multi_scalar_float(mat,m,m,i,scalar);
@@ -490,4 +496,5 @@ void invert_matrix_float(float* res, float* mat, int m)
 			shear_row(res,m,m,j,i,shear_needed);
 		}
 	}
+	free(mat);
 }
-- 
2.43.0


From d3b2e801b28b49ac025224b2477a9aae26033377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 52/95] fix: QR factorisation projects on the previous columns,
 clears the lower triangle of r and frees its temporaries

---
 modules/process/src/c_src/matrixprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 21291c7..896ddf8 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -260,10 +260,11 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 		for(int k=0;k<j;k++)
 		{
 			r[k*m+j] = 0;
+			r[j*m+k] = 0;
 			for(int i1=0; i1<m;i1++)
-				r[k*m+j]+=col_a[i1];
+				r[k*m+j]+=q[i1*m+k]*col_a[i1];
 			for(int i2=0;i2<m;i2++)
-				col_q[i2] -= r[k*m+j];
+				col_q[i2] -= r[k*m+j]*q[i2*m+k];
 		}
 
 		float tmp = matrix_norm_float(col_q,m);
@@ -271,6 +272,8 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 		for(int i = 0;i<m;i++)
 			q[i*m+j] = col_q[i]/tmp;
 	}
+	free(col_a);
+	free(col_q);
 }
 
 void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m,int n)
-- 
2.43.0


From 2903935f0c06a0de2f4e09ee91ec56c63bc41de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 53/95] fix: eigenvector elimination scales the whole pivot row

---
 modules/process/src/c_src/matrixprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 896ddf8..a035579 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -293,7 +293,7 @@ void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m
 		{
 			float coe = temp[i*n+i];
 			
-			for(int j=1;j<n;j++)
+			for(int j=i;j<n;j++)
 				temp[i*n+j]/=coe;
 
 			for (int i1 = i + 1; i1 < m; i1++)
-- 
2.43.0


From 8d58c421536d772d58c10e35adea4610a520eb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 54/95] fix: the CEM filter passes its operands to the matrix
 product in the right order

---
 modules/algorithm/src/cem.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index 40092db..b9cfea9 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -43,9 +43,9 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	float* fir2 = (float*)malloc(bands * sizeof(float));
 	float* fir3 = (float*)malloc(sizeof(float));
 
-	MulMatrix_float(fir1, invdata, spectral, bands, bands, 1);
-	MulMatrix_float(fir2, spectral, invdata, 1, bands, bands);
-	MulMatrix_float(fir3, fir2, spectral, 1, bands, 1);
+	MulMatrix_float(invdata, spectral, fir1, bands, bands, 1);
+	MulMatrix_float(spectral, invdata, fir2, 1, bands, bands);
+	MulMatrix_float(fir2, spectral, fir3, 1, bands, 1);
 
 	for(int i=0; i<bands; i++)
 		fir1[i] = fir1[i]/fir3[0];
@@ -53,7 +53,7 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	simple_mat res = create_simple_mat(lines, samples, data_type, 1);
 	float* res_data = (float*)res->data;
 
-	MulMatrix_float(res_data, t_data, fir1, samples*lines,bands, 1);
+	MulMatrix_float(t_data, fir1, res_data, samples*lines,bands, 1);
 
 	delete_simple_mat(src);
 	delete_simple_mat(t);
-- 
2.43.0


From 8c3c3877ebce9d7afd5419f8e3736c75960c8e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 55/95] fix: CEM leaves the interleave of its input alone

---
 modules/algorithm/src/cem.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index b9cfea9..15a3117 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -15,8 +15,12 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 {
 	hypercv_assert(bsq_mat->data_type == 4           , "input mat data_type is float");
 	
+	hyper_mat input_mat = bsq_mat;
 	if(cmpstr(bsq_mat->interleave, "bsq") != 1)
+	{
+		bsq_mat = hyper_mat_copy(input_mat);
 		convert2bsq(bsq_mat);
+	}
 		
 	int samples   = bsq_mat -> samples;
 	int lines     = bsq_mat -> lines;
@@ -55,6 +59,8 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 
 	MulMatrix_float(t_data, fir1, res_data, samples*lines,bands, 1);
 
+	if(bsq_mat != input_mat)
+		delete_hyper_mat(bsq_mat);
 	delete_simple_mat(src);
 	delete_simple_mat(t);
 	delete_simple_mat(corrmat);
-- 
2.43.0


From dd422fb5f372423bd29adf1d0896848b1f7a6943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 56/95] fix: separable blur clamped its intermediate row sums,
 which darkened the edge of pyramid_up

---
 modules/process/src/c_src/filter.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index fd446ce..67df01a 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -399,13 +399,6 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 					sum[2] += (kx_data[k]*src_data[i*src_cols*cn+(index)*cn+2]);
 				}
 			}
-			for ( k = 0 ; k < cn ; k++)
-			{
-				if(sum[k]<0)
-					sum[k]=0;
-				else if (sum[k]>255)
-					sum[k]=255;
-			}
 			if (cn == 1)
 				temp_data[i*temp_mat->cols+j] =sum[0];
 			else if (cn == 3)
-- 
2.43.0


From 66da080cd7bfdfbc439ea0cfd46e3ca640a19128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 57/95] fix: restore the line endings of
 RadiometricCalibration.c

---
 .../src/c_src/RadiometricCalibration.c        | 152 +++++++++---------
 1 file changed, 76 insertions(+), 76 deletions(-)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index 673a0ba..11e1f3b 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -1,76 +1,76 @@
-#include "precomp.h"
-
-/**
-* @brief      hyper_mat relative correction.
-* @param[in]  bip_mat      hyper mat.
-* @param[in]  coefficient  correction coefficient.
-* @retval     hyper_mat    hyper image mat.
-**/
-hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
-{
-	hypercv_assert(bip_mat != NULL && coefficient != NULL, "input must not be NULL");
-	hypercv_assert(cmpstr(bip_mat->interleave, "bip") == 1, "hyper mat interleave should be bip");
-	int samples = bip_mat->samples;
-	int lines = bip_mat->lines;
-	int bands = bip_mat->bands;
-
-	hypercv_assert(bip_mat->data_type == 12, "hyper mat data type should be unsigned short");
-	unsigned short * bipdata = (unsigned short*)bip_mat->data;
-
-	hyper_mat res = create_hyper_mat_with_data(samples, lines, bands, 4, bip_mat->interleave, NULL, bip_mat->wavelength);
-	
-	float* res_data = (float*)res->data;
-
-	for (int i = 0; i < lines; i++)
-	{
-		for (int j = 0; j < samples; j++)
-		{
-			for (int k = 0; k < bands; k++)
-			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
-			}
-		}
-	}
-	return res;
-}
-
-/**
-* @brief      hyper_mat absolute correction.
-* @param[in]  bip_mat      hyper mat.
-* @param[in]  coefficient  correction coefficient.
-* @retval     hyper_mat    hyper image mat.
-**/
-hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
-{
-	hypercv_assert(bip_mat != NULL && coefficient != NULL, "input must not be NULL");
-	hypercv_assert(cmpstr(bip_mat->interleave, "bip") == 1, "hyper mat interleave should be bip");
-	int samples = bip_mat->samples;
-	int lines = bip_mat->lines;
-	int bands = bip_mat->bands;
-
-	hypercv_assert(bip_mat->data_type == 4, "hyper mat data type should be float");
-	float* bipdata = (float*)bip_mat->data;
-
-	hyper_mat res = create_hyper_mat_with_data(samples, lines, bands, 4, bip_mat->interleave, NULL, bip_mat->wavelength);
-
-	float* res_data = (float*)res->data;
-
-	for (int i = 0; i < lines; i++)
-	{
-		for (int j = 0; j < samples; j++)
-		{
-			for (int k = 0; k < bands; k++)
-			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k];
-			}
-		}
-	}
-	return res;
-}
-
-
-
-
-
-
-
+#include "precomp.h"
+
+/**
+* @brief      hyper_mat relative correction.
+* @param[in]  bip_mat      hyper mat.
+* @param[in]  coefficient  correction coefficient.
+* @retval     hyper_mat    hyper image mat.
+**/
+hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
+{
+	hypercv_assert(bip_mat != NULL && coefficient != NULL, "input must not be NULL");
+	hypercv_assert(cmpstr(bip_mat->interleave, "bip") == 1, "hyper mat interleave should be bip");
+	int samples = bip_mat->samples;
+	int lines = bip_mat->lines;
+	int bands = bip_mat->bands;
+
+	hypercv_assert(bip_mat->data_type == 12, "hyper mat data type should be unsigned short");
+	unsigned short * bipdata = (unsigned short*)bip_mat->data;
+
+	hyper_mat res = create_hyper_mat_with_data(samples, lines, bands, 4, bip_mat->interleave, NULL, bip_mat->wavelength);
+	
+	float* res_data = (float*)res->data;
+
+	for (int i = 0; i < lines; i++)
+	{
+		for (int j = 0; j < samples; j++)
+		{
+			for (int k = 0; k < bands; k++)
+			{
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
+			}
+		}
+	}
+	return res;
+}
+
+/**
+* @brief      hyper_mat absolute correction.
+* @param[in]  bip_mat      hyper mat.
+* @param[in]  coefficient  correction coefficient.
+* @retval     hyper_mat    hyper image mat.
+**/
+hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
+{
+	hypercv_assert(bip_mat != NULL && coefficient != NULL, "input must not be NULL");
+	hypercv_assert(cmpstr(bip_mat->interleave, "bip") == 1, "hyper mat interleave should be bip");
+	int samples = bip_mat->samples;
+	int lines = bip_mat->lines;
+	int bands = bip_mat->bands;
+
+	hypercv_assert(bip_mat->data_type == 4, "hyper mat data type should be float");
+	float* bipdata = (float*)bip_mat->data;
+
+	hyper_mat res = create_hyper_mat_with_data(samples, lines, bands, 4, bip_mat->interleave, NULL, bip_mat->wavelength);
+
+	float* res_data = (float*)res->data;
+
+	for (int i = 0; i < lines; i++)
+	{
+		for (int j = 0; j < samples; j++)
+		{
+			for (int k = 0; k < bands; k++)
+			{
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k];
+			}
+		}
+	}
+	return res;
+}
+
+
+
+
+
+
+
-- 
2.43.0


From 8e07230ba990cd6160bdeeb8234500c47c6576ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 58/95] fix: hypercv_magnitude read the imaginary part at the
 wrong index

---
 modules/algorithm/src/dft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 4348a79..3ce9c41 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -244,7 +244,7 @@ void hypercv_magnitude(simple_mat re_mat, simple_mat im_mat, simple_mat dst_mat)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols*j],2));
+			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols+j],2));
 		}
 	}
 }
-- 
2.43.0


From 558cd0f475886b58b16acea20fa3c24f3d20be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 59/95] fix: the 16-bit inverse transform clipped its output to
 eight bits

---
 modules/algorithm/src/dft.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 3ce9c41..c8d569d 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -222,7 +222,8 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / sqrt(rows*cols));
+			real = rint(real / sqrt(rows*cols));
+			dst_data[i*cols+j] = real < 0 ? 0 : real > 65535 ? 65535 : (unsigned short)real;
 		}
 	}
 }
-- 
2.43.0


From d9282ee170e410b83a06f10328ca3601c1d056d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 60/95] fix: the forward transform lacked the scale that its
 inverse assumes

---
 modules/algorithm/src/dft.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index c8d569d..844ea74 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -69,8 +69,8 @@ void hypercv_dft_uchar(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 					im += src_data[x*cols+y]*sin(-2*PI*temp);
 				}
 			}
-			re_data[i*cols+j] = re;
-			im_data[i*cols+j] = im;
+			re_data[i*cols+j] = re / sqrt(rows*cols);
+			im_data[i*cols+j] = im / sqrt(rows*cols);
 		}
 	}
 }
@@ -106,8 +106,8 @@ void hypercv_dft_ushort(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 					im += src_data[x*cols+y]*sin(-2*PI*temp);
 				}
 			}
-			re_data[i*cols+j] = re;
-			im_data[i*cols+j] = im;
+			re_data[i*cols+j] = re / sqrt(rows*cols);
+			im_data[i*cols+j] = im / sqrt(rows*cols);
 		}
 	}
 }
-- 
2.43.0


From 517ba3c28a4f5d3f100e2be3c6849ae0077717a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 61/95] fix: float normalisation rounded its result to 8-bit
 integers and mistook negative values

---
 modules/algorithm/src/normalize.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index d025d63..4fefc79 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -100,7 +100,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] =saturate_cast_float2uchar(src_data[i]*alpha/L1_norm);
+			dst_data[i] = src_data[i]*alpha/L1_norm;
 	}
 	if(norm_type == NORM_L2)
 	{
@@ -108,20 +108,20 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L2_norm += src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/sqrt(L2_norm));
+			dst_data[i] = src_data[i]*alpha/sqrt(L2_norm);
 	}
 
 	if(norm_type == NORM_INF)
 	{
 		float INF_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
-			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
+			INF_norm = fabs(src_data[i])>INF_norm?fabs(src_data[i]):INF_norm;
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/INF_norm);
+			dst_data[i] = src_data[i]*alpha/INF_norm;
 	}
 	if(norm_type == NORM_MINMAX)
 	{
-		float maxsrc=-1000000,minsrc=1000000;
+		float maxsrc=src_data[0],minsrc=src_data[0];
 		for(int i=0;i<rows*cols;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
@@ -131,7 +131,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		float a = alpha>beta?beta:alpha;
 
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
+			dst_data[i] = (src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a;
 	}
 }
 
-- 
2.43.0


From 9a56ece6cfa8be2e96c1e8f235809fd530faa625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 62/95] fix: normalisation left all but the first channel's
 worth of pixels untouched and ignored the destination's type

---
 modules/algorithm/src/normalize.c | 38 ++++++++++++++++---------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index 4fefc79..afb2709 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -29,7 +29,8 @@ void hypercv_normalize(simple_mat src, simple_mat dst, float alpha, float beta,
 void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float beta, int norm_type)
 {
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
-	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols&&dst->channels==src->channels,"src size == dst size");
+	hypercv_assert(dst->data_type==src->data_type,"src data type == dst data type");
 	int rows = src->rows;
 	int cols = src->cols;
 	int data_type = src->data_type;
@@ -42,32 +43,32 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 	if(norm_type == NORM_L1)
 	{
 		float L1_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] =saturate_cast_float2uchar(src_data[i]*alpha/L1_norm);
 	}
 	if(norm_type == NORM_L2)
 	{
 		float L2_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			L2_norm += src_data[i]*src_data[i];
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/sqrt(L2_norm));
 	}
 
 	if(norm_type == NORM_INF)
 	{
 		float INF_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/INF_norm);
 	}
 	if(norm_type == NORM_MINMAX)
 	{
 		float maxsrc=-1000000,minsrc=1000000;
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
 			minsrc = minsrc<src_data[i]?minsrc:src_data[i];
@@ -75,7 +76,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 		float b = alpha>beta?alpha:beta;
 		float a = alpha>beta?beta:alpha;
 
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = saturate_cast_float2uchar((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
 	}
 }
@@ -84,7 +85,8 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float beta, int norm_type)
 {
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
-	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols&&dst->channels==src->channels,"src size == dst size");
+	hypercv_assert(dst->data_type==src->data_type,"src data type == dst data type");
 	int rows = src->rows;
 	int cols = src->cols;
 	int data_type = src->data_type;
@@ -97,32 +99,32 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	if(norm_type == NORM_L1)
 	{
 		float L1_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = src_data[i]*alpha/L1_norm;
 	}
 	if(norm_type == NORM_L2)
 	{
 		float L2_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			L2_norm += src_data[i]*src_data[i];
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = src_data[i]*alpha/sqrt(L2_norm);
 	}
 
 	if(norm_type == NORM_INF)
 	{
 		float INF_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			INF_norm = fabs(src_data[i])>INF_norm?fabs(src_data[i]):INF_norm;
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = src_data[i]*alpha/INF_norm;
 	}
 	if(norm_type == NORM_MINMAX)
 	{
 		float maxsrc=src_data[0],minsrc=src_data[0];
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
 			minsrc = minsrc<src_data[i]?minsrc:src_data[i];
@@ -130,7 +132,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		float b = alpha>beta?alpha:beta;
 		float a = alpha>beta?beta:alpha;
 
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = (src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a;
 	}
 }
-- 
2.43.0


From b91989f988ecfbbe15c1eafca6cb57655abc7b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 63/95] fix: normalising a blank or constant image divided by
 zero

---
 modules/algorithm/src/normalize.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index afb2709..71c46c9 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -46,7 +46,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols*channels;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols*channels;i++)
-			dst_data[i] =saturate_cast_float2uchar(src_data[i]*alpha/L1_norm);
+			dst_data[i] =saturate_cast_float2uchar(L1_norm==0?0:src_data[i]*alpha/L1_norm);
 	}
 	if(norm_type == NORM_L2)
 	{
@@ -54,7 +54,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols*channels;i++ )
 			L2_norm += src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols*channels;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/sqrt(L2_norm));
+			dst_data[i] = saturate_cast_float2uchar(L2_norm==0?0:src_data[i]*alpha/sqrt(L2_norm));
 	}
 
 	if(norm_type == NORM_INF)
@@ -63,7 +63,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols*channels;i++ )
 			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
 		for(int i=0;i<rows*cols*channels;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/INF_norm);
+			dst_data[i] = saturate_cast_float2uchar(INF_norm==0?0:src_data[i]*alpha/INF_norm);
 	}
 	if(norm_type == NORM_MINMAX)
 	{
@@ -77,7 +77,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 		float a = alpha>beta?beta:alpha;
 
 		for(int i=0;i<rows*cols*channels;i++)
-			dst_data[i] = saturate_cast_float2uchar((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
+			dst_data[i] = saturate_cast_float2uchar(maxsrc==minsrc?a:(src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
 	}
 }
 
@@ -102,7 +102,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols*channels;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols*channels;i++)
-			dst_data[i] = src_data[i]*alpha/L1_norm;
+			dst_data[i] = L1_norm==0?0:src_data[i]*alpha/L1_norm;
 	}
 	if(norm_type == NORM_L2)
 	{
@@ -110,7 +110,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols*channels;i++ )
 			L2_norm += src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols*channels;i++)
-			dst_data[i] = src_data[i]*alpha/sqrt(L2_norm);
+			dst_data[i] = L2_norm==0?0:src_data[i]*alpha/sqrt(L2_norm);
 	}
 
 	if(norm_type == NORM_INF)
@@ -119,7 +119,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols*channels;i++ )
 			INF_norm = fabs(src_data[i])>INF_norm?fabs(src_data[i]):INF_norm;
 		for(int i=0;i<rows*cols*channels;i++)
-			dst_data[i] = src_data[i]*alpha/INF_norm;
+			dst_data[i] = INF_norm==0?0:src_data[i]*alpha/INF_norm;
 	}
 	if(norm_type == NORM_MINMAX)
 	{
@@ -133,7 +133,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		float a = alpha>beta?beta:alpha;
 
 		for(int i=0;i<rows*cols*channels;i++)
-			dst_data[i] = (src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a;
+			dst_data[i] = maxsrc==minsrc?a:(src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a;
 	}
 }
 
-- 
2.43.0


From c2d6b345ab297cb44cb428a0b81d684c711d2977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 64/95] fix: histogram equalisation scaled its running sum
 while still summing

---
 modules/algorithm/src/HisEqualization.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 5b45383..1ff669f 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -27,10 +27,10 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 		hist[data[i]]+=1;
 	
 	for(int i=1; i<256; i++)
-	{
 		hist[i] += hist[i-1];
-		hist[i] = hist[i]*255/(rows*cols);
-	}
+
+	for(int i=0; i<256; i++)
+		hist[i] = (long long)hist[i]*255/(rows*cols);
 	
 	for(int i=0; i<rows*cols; i++)
 		dst_data[i] = hist[data[i]];
-- 
2.43.0


From 79dff3bb598d2ef0249409566b85e15b8c94bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 65/95] fix: equalisation and linear stretching read element
 types they do not support past their buffers

---
 modules/algorithm/src/HisEqualization.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 1ff669f..40a52e6 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -17,6 +17,7 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	hypercv_assert(rows==dst_mat->rows&&dst_mat->cols==cols,"input mat size equal");
+	hypercv_assert(src_mat->data_type==1&&dst_mat->data_type==1&&src_mat->channels==1&&dst_mat->channels==1,"only gray image");
 
 	unsigned char* data = (unsigned char*) src_mat ->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat ->data;
@@ -44,6 +45,7 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 	int bands = bsq_mat -> bands;
 	hypercv_assert(dst_mat->samples == samples&& dst_mat->lines == lines&&dst_mat->bands == bands,"src mat size == dst mat size");
 	hypercv_assert(dst_mat ->data_type ==1,"dst data type char");
+	hypercv_assert(bsq_mat ->data_type ==4,"src data type float");
 	float * srcdata = (float*)bsq_mat -> data;
 	unsigned char* dstdata = (unsigned char*) dst_mat->data;
 	float maxdata = 0.0;
-- 
2.43.0


From a322da892b92e0d07212d016453e9fbfa7a09eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 66/95] fix: linear stretching of negative and of constant
 bands

---
 modules/algorithm/src/HisEqualization.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 40a52e6..efb6a9e 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -55,8 +55,8 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 	int res=0;
 	for(int k=0; k<bands; k++)
 	{
-		maxdata = 0.0;
-		mindata = 1000000000;
+		maxdata = srcdata[k*samples*lines];
+		mindata = srcdata[k*samples*lines];
 		tmp =0.0;
 		res =0;
 		for(int i=0; i<lines;i++)
@@ -70,8 +70,8 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 					mindata = tmp;
 			}
 		}
-		float m = 255/(maxdata-mindata);
-		float n = -mindata*255/(maxdata-mindata);
+		float m = maxdata==mindata?0:255/(maxdata-mindata);
+		float n = maxdata==mindata?0:-mindata*255/(maxdata-mindata);
 		for(int i=0; i<lines;i++)
 		{
 			for(int j=0; j<samples; j++)
-- 
2.43.0


From 208d9c69d16742bfa28aec47784772c94c7bc81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 67/95] fix: k-means took centres moving left or up for
 converged ones

---
 modules/algorithm/src/cluster.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 14977a3..5b98d63 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -88,7 +88,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 			v2[k].x = v2[k].x / num[k];
 		    v2[k].y = v2[k].y / num[k];
 			}
-			if(v2[k].x-v1[k].x > iter_threshold || v2[k].y-v1[k].y > iter_threshold)
+			if(abs(v2[k].x-v1[k].x) > iter_threshold || abs(v2[k].y-v1[k].y) > iter_threshold)
 				flag = 1;
 			v1[k].x = v2[k].x;
 			v1[k].y = v2[k].y;
-- 
2.43.0


From 7b0da90bce9c025d3bcd5e283301fb069eaa583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 68/95] fix: k-means threw the centre of an empty cluster to
 the corner

---
 modules/algorithm/src/cluster.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 5b98d63..c3b1f5a 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -88,6 +88,8 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 			v2[k].x = v2[k].x / num[k];
 		    v2[k].y = v2[k].y / num[k];
 			}
+			else
+				v2[k] = v1[k];
 			if(abs(v2[k].x-v1[k].x) > iter_threshold || abs(v2[k].y-v1[k].y) > iter_threshold)
 				flag = 1;
 			v1[k].x = v2[k].x;
-- 
2.43.0


From 1d0274981b3eff33cda5293bf375216603896ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 69/95] fix: k-means leaked its grey image

---
 modules/algorithm/src/cluster.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index c3b1f5a..a162214 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -103,4 +103,6 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	}
 	free(v2);
 	free(num);
+	if(mat != src)
+		delete_simple_mat(mat);
 }
-- 
2.43.0


From e379d5cd365d73b06743f9feb5fdb69de02c23cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 70/95] fix: Hu moments were taken about a rounded centroid

---
 modules/algorithm/src/shapematch.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index 5e12322..35fb96d 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -39,8 +39,7 @@ void calc_hu_moment(double* hu,simple_mat mat)
 	double x0=0,y0=0;    //计算中心距时所使用的临时变量（x-x'） 
 	double u20=0,u02=0,u11=0,u30=0,u03=0,u12=0,u21=0;//规范化后的中心矩
 	double t1=0,t2=0,t3=0,t4=0,t5=0;//临时变量， 
-	//double Center_x=0,Center_y=0;//重心 
-	int Center_x=0,Center_y=0;//重心 
+	double Center_x=0,Center_y=0;//重心 
 	int i,j;            //循环变量
 
 	//  获得图像的区域重心(普通矩)
@@ -54,8 +53,8 @@ void calc_hu_moment(double* hu,simple_mat mat)
 			s00+=data[j*step+i];
 		}
 	}
-	Center_x=(int)(s10/s00+0.5);
-	Center_y=(int)(s01/s00+0.5);
+	Center_x=s10/s00;
+	Center_y=s01/s00;
 
 	//  计算二阶、三阶矩(中心矩)
 	m00=s00; 
-- 
2.43.0


From fe8e3c4d14f21598ebbd01eaa4528eae50dcf695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 71/95] fix: shape matching leaked its moments

---
 modules/algorithm/src/shapematch.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index 35fb96d..86c21eb 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -23,9 +23,7 @@ static double calc_similar_hu(double* hu1, double* hu2)
 
 void calc_hu_moment(double* hu,simple_mat mat)
 {
-	if(hu==NULL)
-		hu = (double*)malloc(7*sizeof(double));
-
+	hypercv_assert(hu!=NULL,"output cannot be NULL");
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
 
 	int cols = mat->cols;
@@ -113,6 +111,8 @@ double hypercv_match_shapes(simple_mat mat1, simple_mat mat2)
 
 	double res=0;
 	res = calc_similar_hu(hu1,hu2);
+	free(hu1);
+	free(hu2);
 	return res;
 }
 
-- 
2.43.0


From 9a2c7745f4d4bb044534d6a78c0d89bf7f905292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 72/95] fix: shape matching divided by zero for blank images
 and single points

---
 modules/algorithm/src/shapematch.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index 86c21eb..ae65e87 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -15,7 +15,7 @@ static double calc_similar_hu(double* hu1, double* hu2)
 		tmp1 += fabs(hu1[i]-hu2[i]);
 		tmp2 += fabs(hu1[i]+hu2[i]);
 	}
-	res = 1-tmp1/tmp2;
+	res = tmp2==0?1:1-tmp1/tmp2;
 	return res;
 
 }
@@ -51,6 +51,12 @@ void calc_hu_moment(double* hu,simple_mat mat)
 			s00+=data[j*step+i];
 		}
 	}
+	if(s00==0)
+	{
+		for(i=0;i<7;i++)
+			hu[i]=0;
+		return;
+	}
 	Center_x=s10/s00;
 	Center_y=s01/s00;
 
-- 
2.43.0


From 044d0303956c02d4d0bf9ef5ba15efb69526e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 73/95] fix: cal_edge_signal_energy assigned the image
 properties it meant to check

---
 modules/algorithm/src/EdgeSignalEnergy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/EdgeSignalEnergy.c b/modules/algorithm/src/EdgeSignalEnergy.c
index 7ffdee2..d1d5c83 100644
--- a/modules/algorithm/src/EdgeSignalEnergy.c
+++ b/modules/algorithm/src/EdgeSignalEnergy.c
@@ -9,8 +9,8 @@
 float cal_edge_signal_energy(simple_mat mat)
 {
 	hypercv_assert(mat!=NULL, "input mat cannot be NULL");
-	hypercv_assert(mat->channels = 1,"only use in grayimage");
-	hypercv_assert(mat->data_type = 1,"data_type == 1");
+	hypercv_assert(mat->channels == 1,"only use in grayimage");
+	hypercv_assert(mat->data_type == 1,"data_type == 1");
   
 	float opt1[9] = {-1,-1,1,-1,4,-1,1,-1,-1};
 	float opt2[9] = {1,-1,-1,-1,4,-1,-1,-1,1};
-- 
2.43.0


From 845af85b7f90a1062b8d492fa52022db6abb017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 74/95] fix: hyper_mat_pca assigned the element type it meant
 to check

---
 modules/algorithm/src/pca.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index cbe71c5..e9b9c5c 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -36,7 +36,7 @@ static void cal_covariance_matrix(simple_mat x, simple_mat mean_mat,simple_mat r
 void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 {
 
-	hypercv_assert(bip_mat->data_type = 4,"only use in float");
+	hypercv_assert(bip_mat->data_type == 4,"only use in float");
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
-- 
2.43.0


From 6435bc767d1de7af90e2c1c53e27150c57678eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 75/95] fix: hyper_mat_pca leaked its eigenvalues

---
 modules/algorithm/src/pca.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index e9b9c5c..c74c372 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -84,5 +84,6 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	delete_simple_mat(q_mat);
 	delete_simple_mat(temp);
 	delete_simple_mat(eigen_vector);
+	free(evalue);
 
 }
-- 
2.43.0


From b9ff8184b2a230cc1a3fd6f5e356e27716f03f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 76/95] fix: PCA centred every pixel on its own mean, not every
 band, which made its covariance singular

---
 modules/algorithm/src/pca.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index c74c372..ac22b81 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -6,27 +6,31 @@
 #include "precomp.h"
 //________private function________________
 
-static void cal_covariance_matrix(simple_mat x, simple_mat mean_mat,simple_mat res_mat)
+static void cal_covariance_matrix(simple_mat x, simple_mat res_mat)
 {//only for float
 
-	int samples = mean_mat->cols;
-	int lines = mean_mat->rows;
+	int pixels = x->rows;
 	int bands = x->cols;
 
 	float* x_data = (float*)x->data;
-	float* mean_data = (float*)mean_mat->data;
 	float* res_data = (float*)res_mat->data;
 	
-	for(int i=0;i<samples*lines;i++)
-		for (int j=0;j<bands;j++)
-			 x_data[i*bands+j] -= mean_data[i];
+	for (int j=0;j<bands;j++)
+	{
+		double mean = 0;
+		for(int i=0;i<pixels;i++)
+			mean += x_data[i*bands+j];
+		mean /= pixels;
+		for(int i=0;i<pixels;i++)
+			x_data[i*bands+j] -= mean;
+	}
 
-	simple_mat t = create_simple_mat(bands,samples*lines,4,1);
+	simple_mat t = create_simple_mat(bands,pixels,4,1);
     simple_mat_transport(t,x);
 
 	float* t_data = (float*)t->data;
 	
-	MulMatrix_float(t_data,x_data,res_data,bands,lines*samples,bands);
+	MulMatrix_float(t_data,x_data,res_data,bands,pixels,bands);
 	
 	delete_simple_mat(t);
 }
@@ -37,16 +41,14 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 {
 
 	hypercv_assert(bip_mat->data_type == 4,"only use in float");
+	hypercv_assert(cmpstr(bip_mat->interleave,"bip") == 1,"input mat must be bip");
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
-//计算平均图像	
-	simple_mat mean_mat = create_simple_mat(lines,samples,4,1);
-	hyper_mat_mean(bip_mat,mean_mat);
 //计算自相关矩阵
 	simple_mat reshape_mat = reshape_hypermat_2_simplemat(bip_mat,samples*lines,bands);
 	simple_mat cov_mat = create_simple_mat(bands,bands,4,1);
-	cal_covariance_matrix(reshape_mat,mean_mat,cov_mat);
+	cal_covariance_matrix(reshape_mat,cov_mat);
 
 	simple_mat temp = simple_mat_copy(cov_mat);
 	simple_mat q_mat = create_simple_mat(cov_mat->rows,cov_mat->cols,4,1);
@@ -77,7 +79,6 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 
 	TransMatrix_float(eigen_vector_q->data,transport_eigen_vector_q->data,eigen_vector_q->rows,eigen_vector_q->cols);
 */
-	delete_simple_mat(mean_mat);
 	delete_simple_mat(cov_mat);
 	delete_simple_mat(reshape_mat);
 	delete_simple_mat(r_mat);
-- 
2.43.0


From ac445753649e57c866678fa13ce8a2b65b98479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 77/95] fix: draw_line drew a line of the inverse slope across
 the whole image and nothing on grey images

---
 modules/highgui/src/draw.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index bae668a..efc3001 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -59,28 +59,28 @@ void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB
 
 	memcpy(dst_data,src_data,rows*cols*channels);	
 
-	float k = (float)(pt2.x-pt1.x)/(pt2.y-pt1.y);
-	float b = (float)pt1.y-k*pt1.x;
+	int dx = pt2.x-pt1.x;
+	int dy = pt2.y-pt1.y;
+	int steps = abs(dx)>abs(dy)?abs(dx):abs(dy);
 
-	for(int i=0;i<rows;i++)
+	for(int n=0;n<=steps;n++)
 	{
-		for(int j=0;j<cols;j++)
+		int x = steps==0?pt1.x:pt1.x+(int)floor((double)dx*n/steps+0.5);
+		int y = steps==0?pt1.y:pt1.y+(int)floor((double)dy*n/steps+0.5);
+		for(int i=-thickness/2;i<=thickness/2;i++)
 		{
-			if(i==(int)(j*k+b+0.5))
+			for(int j=-thickness/2;j<=thickness/2;j++)
 			{
-				for(int t=-thickness/2;t<=thickness/2;t++)
+				if(x+i>=0&&x+i<cols&&y+j>=0&&y+j<rows)
 				{
-					if(j+t>=0&&j+t<cols)
+					if(channels ==3)
 					{
-						if(channels ==3)
-						{
-							dst_data[i*cols*channels+(j+t)*channels] = color.r;
-							dst_data[i*cols*channels+(j+t)*channels+1] = color.g;
-							dst_data[i*cols*channels+(j+t)*channels+2] = color.b;
-						}
-						else if(channels == 1)
-							dst_data[i*cols+(j+t)] == color.r;
+						dst_data[(y+j)*cols*channels+(x+i)*channels] = color.b;
+						dst_data[(y+j)*cols*channels+(x+i)*channels+1] = color.g;
+						dst_data[(y+j)*cols*channels+(x+i)*channels+2] = color.r;
 					}
+					else if(channels == 1)
+						dst_data[(y+j)*cols+(x+i)] = color.r;
 				}
 			}
 		}
-- 
2.43.0


From 373605b78336b4508d77d760f06677096b90dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 78/95] fix: hyper_mat_rotate leaves the layout of its input
 alone

---
 modules/process/src/c_src/GeometricTransformation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index c7a599d..bc031dc 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -164,8 +164,12 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 {
 
+	hyper_mat input_mat = mat;
 	if(cmpstr(mat->interleave,"bip")!=1)
+	{
+		mat = hyper_mat_copy(input_mat);
 		convert2bip(mat);
+	}
 	double theta = angle * PI/180;
 	double c = cos(theta);
 	double s = sin(theta);
@@ -213,5 +217,7 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 		}
 
 	}
+	if(mat != input_mat)
+		delete_hyper_mat(mat);
 	return dst_mat;
 }
-- 
2.43.0


From 23408bd549b2e8d948a119504b4815a74fe42614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 79/95] fix: hyper_mat_rotate wrote outside its result and lost
 the centre

---
 .../src/c_src/GeometricTransformation.c       | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index bc031dc..60799ee 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -174,8 +174,8 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 	double c = cos(theta);
 	double s = sin(theta);
 
-	int h = (mat->lines+1)/2;
-	int w = (mat->samples+1)/2;
+	double h = mat->lines/2.0;
+	double w = mat->samples/2.0;
 
     float x0 = - w * c - h * s;
 	float y0 = -h * c + w * s;
@@ -190,13 +190,14 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 	float height1 = fabs(y2 - y0);
 	float height2 = fabs(y3 - y1);
 
-	int width = (width1 > width2 ? width1 : width2);
-	int height = (height1 > height2 ? height1 : height2);
+	int width = ceil((width1 > width2 ? width1 : width2) - 1e-3);
+	int height = ceil((height1 > height2 ? height1 : height2) - 1e-3);
 
 	hyper_mat dst_mat = create_hyper_mat_with_data(width, height, mat->bands,mat->data_type, mat->interleave, NULL, mat->wavelength);
 
-	int di = x0 + width / 2;
-	int dj = y0 + height / 2;
+	double ci = (mat->lines-1)/2.0, cj = (mat->samples-1)/2.0;
+	double di = (height-1)/2.0;
+	double dj = (width-1)/2.0;
 	
 	unsigned char* src_data = (unsigned char*)mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
@@ -207,8 +208,10 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 	{
 		for(int j=0;j<mat->samples;j++)
 		{
-            int x = i * c + j * s + di;
-			int y = j * c - i * s + dj;
+            int x = floor((i-ci) * c + (j-cj) * s + di + 0.5);
+			int y = floor((j-cj) * c - (i-ci) * s + dj + 0.5);
+			if(x<0||x>=height||y<0||y>=width)
+				continue;
 			int dstOft = (x * width + y) * mat->bands * elem_size;
 			int srcOft = (i * mat->samples + j) * mat->bands * elem_size;
 			unsigned char* src = src_data + srcOft;
-- 
2.43.0


From 20cc43d99b24c3ed5c44f1570e6ff79b5f12e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 80/95] fix: HyMat constructors start from an empty object, a
 default HyMat is empty, and create/open/convertTo check their own arguments

---
 modules/core/include/cxx_include/hypermat.hpp | 66 ++++++++++++-------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index d940d16..9ef24eb 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -76,17 +76,32 @@ namespace hypercv
 			}
 		private:
 
+			void clear();
 			void writeHdr(const char* filePath);
 
 	};
 
+	inline void HyMat::clear()
+	{
+		lines = samples = bands = dataType = 0;
+		format = HYPERCV_BSQ;
+		interleave[0] = 'b';
+		interleave[1] = 's';
+		interleave[2] = 'q';
+		data = NULL;
+		wavelength = NULL;
+		elemSize = 0;
+		dataSize = 0;
+	}
+
 	inline HyMat::HyMat()
 	{
-		create(0, 0, 0, HYPERCV_UCHAR, HYPERCV_BSQ);
+		clear();
 	}
 
 	inline HyMat::HyMat(int _samples, int _lines, int _bands, int _dataType, int _format)
 	{
+		clear();
 		create(_samples, _lines, _bands, _dataType, _format);
 	}
 
@@ -99,11 +114,13 @@ namespace hypercv
 	   */
 	inline HyMat::HyMat(int _samples, int _lines, int _bands, int _dataType, int _format, void* _data)			
 	{
+		clear();
 		create(_samples, _lines, _bands, _dataType, _format, _data, NULL);
 	}
 
 	inline HyMat::HyMat(int _samples, int _lines, int _bands, int _dataType, int _format, void* _data, float* _wavelength)
 	{
+		clear();
 		create(_samples, _lines, _bands, _dataType, _format, _data, _wavelength);
 	}
 
@@ -121,17 +138,17 @@ namespace hypercv
 	inline void HyMat::create(int _samples, int _lines, int _bands, int _dataType, int _format, void* _data, float* _wavelength)
 	{
 
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if(data)
 			release();
@@ -327,17 +344,17 @@ namespace hypercv
 
 	inline void HyMat::open(const char* path, int _samples, int _lines, int _bands, int _dataType, int _format)
 	{
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if (empty() == 0)
 			release();
@@ -360,7 +377,7 @@ namespace hypercv
 
 	inline void HyMat::convertTo(int _format)
 	{
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 		
 		if(_format == format)
 			return;
@@ -449,6 +466,7 @@ namespace hypercv
 		data = NULL;
 		wavelength = NULL;
 		samples = lines = bands = dataType = 0;
+		dataSize = 0;
 
 	}
 
-- 
2.43.0


From cdbbc4c7afa6c54ed1246a8ba5a7952c90f24a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 81/95] fix: HyMat open stores the header's wavelengths in
 storage of its own, never reads more than the cube holds, and leaves the
 object empty when the image is missing

---
 modules/core/include/cxx_include/hypermat.hpp | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 9ef24eb..a413808 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -319,16 +319,6 @@ namespace hypercv
 		if (empty() == 0)
 			release();
 
-		int _samples, _lines, _bands, _dataType;
-		readHdr(hdrPath, _samples, _lines, _bands, _dataType, format, wavelength);
-
-		samples = _samples;
-		lines = _lines;
-		bands = _bands;
-		dataType = _dataType;
-
-		create();
-
 		FILE* _fp = NULL;
 		_fp = fopen(imagePath, "r");
 
@@ -338,7 +328,15 @@ namespace hypercv
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
+		int _samples = 0, _lines = 0, _bands = 0, _dataType = 0;
+		readHdr(hdrPath, _samples, _lines, _bands, _dataType, format, NULL);
+
+		create(_samples, _lines, _bands, _dataType, format);
+
+		// the number of wavelengths is known only now
+		readHdr(hdrPath, _samples, _lines, _bands, _dataType, format, wavelength);
+
+		fread(data, elemSize, dataSize / elemSize, _fp);
 		fclose(_fp);
 	}
 
@@ -359,8 +357,6 @@ namespace hypercv
 		if (empty() == 0)
 			release();
 
-		create(_samples, _lines, _bands, _dataType, _format);
-
 		FILE* _fp = NULL;
 		_fp = fopen(path ,"r");
 
@@ -370,7 +366,9 @@ namespace hypercv
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
+		create(_samples, _lines, _bands, _dataType, _format);
+
+		fread(data, elemSize, dataSize / elemSize, _fp);
 		fclose(_fp);
 
 	}
-- 
2.43.0


From f45181e61b6460e41e70390194937f8739bfc878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 82/95] fix: readHdr recognises fields by name whatever their
 order and spacing, reads every wavelength, and overflows no buffer

---
 modules/core/src/cxx_src/hypermat.cpp | 75 ++++++++++++++-------------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 7b468a5..56f7537 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -56,57 +56,58 @@ namespace hypercv
 		if(!file.is_open())
 			return;
 
-		string lineBuff;
-
+		string lineBuff, waveBuff;
 
 		while (getline(file,lineBuff))
-		{  
-			const char* line = lineBuff.c_str();
-			char item[20];
-			sscanf(line, "%[^=]", item);
+		{
+			size_t equal = lineBuff.find('=');
+			if (equal == lineBuff.npos)
+				continue;
 
-			if (cmpstr(item, (char*)"samples") == 1)
-				sscanf(line, "%*[^=]=%d",&samples);
+			// the name of the item is the text before '=', without blanks around it
+			size_t first = lineBuff.find_first_not_of(" \t");
+			size_t last = lineBuff.find_last_not_of(" \t", equal - 1);
+			string item = (first < equal) ? lineBuff.substr(first, last - first + 1) : "";
+			string value = lineBuff.substr(equal + 1);
 
-			else if (cmpstr(item, (char*)"lines") == 1)
-				sscanf(line, "%*[^=]=%d",&lines);
+			if (value.find('{') != value.npos)
+			{
+				// a list may go over several lines, up to '}'
+				while (value.find('}') == value.npos && getline(file,lineBuff))
+					value += " " + lineBuff;
 
-			else if (cmpstr(item, (char*)"bands") == 1)
-				sscanf(line, "%*[^=]=%d", &bands);
+				if (item == "wavelength")
+					waveBuff = value.substr(value.find('{') + 1);
+			}
+			else if (item == "samples")
+				samples = atoi(value.c_str());
 
-			else if (cmpstr(item, (char*)"data") == 1)
-				sscanf(line, "%*[^=]=%d", &dataType);
+			else if (item == "lines")
+				lines = atoi(value.c_str());
 
-			else if (lineBuff.find("interleave")!=lineBuff.npos)
+			else if (item == "bands")
+				bands = atoi(value.c_str());
+
+			else if (item == "data type")
+				dataType = atoi(value.c_str());
+
+			else if (item == "interleave")
 			{
-				if(lineBuff.find("q")!=lineBuff.npos)
+				if(value.find("q")!=value.npos)
 					format = HYPERCV_BSQ;
-				else if(lineBuff.find("p")!=lineBuff.npos)
+				else if(value.find("p")!=value.npos)
 					format = HYPERCV_BIP;
 				else 
 					format = HYPERCV_BIL;
 			}
-			else if (lineBuff.find("wavelength = {")!=lineBuff.npos)
-			{	
-				string waveBuff, s;
-				stringstream ss;
-				do
-				{
-					int startIndex, endIndex;
-
-					startIndex = lineBuff.find('{')==lineBuff.npos?0:lineBuff.find('{')+1;
-					endIndex = lineBuff.find('}')==lineBuff.npos?lineBuff.size():lineBuff.find('}');
-					waveBuff += lineBuff.substr(startIndex,endIndex);
-				}
-				while(lineBuff.find('}')==lineBuff.npos&&getline(file,lineBuff));
-				ss<<waveBuff;
-				for(int i=0;i<bands;i++)
-				{
-					ss>>s;
-					wavelength[i] = atof(s.c_str());
-				}
+		}
 
-			}
+		if (wavelength != NULL)
+		{
+			stringstream ss(waveBuff.substr(0, waveBuff.find('}')));
+			string s;
+			for(int i=0; i<bands && getline(ss, s, ','); i++)
+				wavelength[i] = atof(s.c_str());
 		}
 
 		file.close();
-- 
2.43.0


From 3d65a0a1a71bec47acb37596fe8031de187b79d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 83/95] fix: HyMat save names the header after the image
 (extension replaced by .hdr) and closes the GDAL data set

---
 modules/core/include/cxx_include/hypermat.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index a413808..97b254d 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -262,6 +262,9 @@ namespace hypercv
 		char** papszOptions = NULL;
 		dataSet = hDriver->Create(filePath, samples, lines, bands, DT, papszOptions);
 
+		if (dataSet != NULL)
+			GDALClose(dataSet);
+
 		//	dataSet->RasterIO(GF_Write, 0, 0, samples, lines, data, DT, )
 		//todo	
 		//#endif 
@@ -282,7 +285,11 @@ namespace hypercv
 	inline void HyMat::writeHdr(const char* filePath)
 	{
 		std::string path(filePath);
-		path = path.substr(0, path.find('.')) + "hdr";
+		size_t dot = path.find_last_of('.');
+		size_t slash = path.find_last_of('/');
+		if (dot != std::string::npos && (slash == std::string::npos || dot > slash))
+			path = path.substr(0, dot);
+		path = path + ".hdr";
 
 		FILE *fp;
 		fp = fopen(path.c_str(), "w");
-- 
2.43.0


From 348ec88c9da9e13d7e3a7a3f0fbc69c3cadb0e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 84/95] fix: HyMat range refuses a range that is not inside the
 cube

---
 modules/core/include/cxx_include/hypermat.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 97b254d..1127be9 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -498,6 +498,7 @@ namespace hypercv
 	inline HyMat HyMat::range(int startRow, int startCol, int startBand, int endRow, int endCol, int endBand)
 	{
 		hypercv_assert(startCol<endCol && startRow<endRow && startBand<endBand, "start col & start row & start band must < end col & end row & end band");
+		hypercv_assert(startCol >= 0 && startRow >= 0 && startBand >= 0 && endCol <= samples && endRow <= lines && endBand <= bands, "the range must lie inside the HyMat");
 
 		int newSamples = endCol - startCol;
 		int newLines = endRow - startRow;
-- 
2.43.0


From 9a06c4fd79d5bc7fdc57b7bc9aa9c46193599784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 85/95] fix: PCA multiplied its QR factors back in the order
 that undoes them, so it never iterated

---
 modules/algorithm/src/pca.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index ac22b81..79b8d83 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -57,7 +57,7 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	for(int i=0;i<iteration;i++)//迭代qr分解
 	{
 		matrix_QR_float((float*)temp->data,(float*)q_mat->data,(float*)r_mat->data,bands);
-		MulMatrix_float((float*)q_mat->data,(float*)r_mat->data,(float*)temp->data,bands,bands,bands);
+		MulMatrix_float((float*)r_mat->data,(float*)q_mat->data,(float*)temp->data,bands,bands,bands);
 	}
 	//计算特征值，特征向量
 	float* evalue = (float*)malloc(bands*sizeof(float));
-- 
2.43.0


From 4d9ece49c4f0091b0165fbb489825abe6643cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 86/95] fix: eigenvector elimination divided by zero for
 vectors whose last component is (nearly) zero

---
 modules/process/src/c_src/matrixprocess.c | 50 +++++++++++++++++++----
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index a035579..a22397f 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -279,6 +279,7 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m,int n)
 {
 	float* temp = (float*)malloc(m*n*sizeof(float));
+	int* order = (int*)malloc(n*sizeof(int));
 	float evalue ;
 
 	for(int count =0;count < n;count++)
@@ -288,11 +289,39 @@ void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m
 
 		for(int i=0;i<m;i++)
 			temp[i*n+i]-=evalue;
+		for(int i=0;i<n;i++)
+			order[i]=i;
 
 		for(int i=0;i<m-1;i++)
 		{
-			float coe = temp[i*n+i];
-			
+			//the matrix is singular: bring the largest element left to the diagonal
+			int row=i,col=i;
+			for(int i1=i;i1<m;i1++)
+				for(int j1=i;j1<n;j1++)
+					if(fabs(temp[i1*n+j1])>fabs(temp[row*n+col]))
+					{
+						row=i1;
+						col=j1;
+					}
+			float coe = temp[row*n+col];
+			if(coe==0)
+				break;
+			for(int j=0;j<n;j++)
+			{
+				float t = temp[i*n+j];
+				temp[i*n+j] = temp[row*n+j];
+				temp[row*n+j] = t;
+			}
+			for(int i1=0;i1<m;i1++)
+			{
+				float t = temp[i1*n+i];
+				temp[i1*n+i] = temp[i1*n+col];
+				temp[i1*n+col] = t;
+			}
+			int t = order[i];
+			order[i] = order[col];
+			order[col] = t;
+
 			for(int j=i;j<n;j++)
 				temp[i*n+j]/=coe;
 
@@ -306,21 +335,26 @@ void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m
 		}
 
 		float sum1=1; 
-		eigenvector[(m-1)*n+count]=1;
+		eigenvector[order[m-1]*n+count]=1;
 		for(int i2= m-2; i2>=0; i2--)
 		{
 			float sum2 =0;
-			for(int j2 = i2+1; j2<n ;j2++)
-				sum2 += temp[i2*n+j2]*eigenvector[j2*n+count];
-
-			sum2 =-sum2/temp[i2*n+i2];
+			if(temp[i2*n+i2]!=0)
+			{
+				for(int j2 = i2+1; j2<n ;j2++)
+					sum2 += temp[i2*n+j2]*eigenvector[order[j2]*n+count];
+				sum2 =-sum2/temp[i2*n+i2];
+			}
 			sum1 += sum2*sum2;
-			eigenvector[i2*n+count] = sum2;
+			eigenvector[order[i2]*n+count] = sum2;
 		}
 		sum1 = sqrt(sum1);
+		if(eigenvector[(m-1)*n+count]<0)
+			sum1 = -sum1;
 		for(int i=0;i<m;i++)
 			eigenvector[i*n+count]/=sum1;
 	}
+	free(order);
 	free(temp);
 }
 
-- 
2.43.0


From b2ddbf7fca642ab40ab8916af17f3121a0de7118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 87/95] fix: contrast ratio summed in single precision, so
 larger images lost small differences

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index a99ee88..c434356 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -479,7 +479,7 @@ float simple_mat_contrast_ratio(simple_mat mat)
 
 	unsigned char* data = (unsigned char*)tmp->data;
 
-	float res =0.0;
+	double res =0.0;
 	for(int i=0; i<rows; i++)
 	{
 		for(int j=0; j<cols; j++)
-- 
2.43.0


From 9384473af46ca45f0793c3ed40207a7e8a1b943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 88/95] fix: what a data or BMP file that ends early does not
 hold reads as zero, not as leftover memory

---
 modules/core/src/c_src/hypermat.c  | 4 ++--
 modules/core/src/c_src/simplemat.c | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index b100afe..6da07ab 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -248,7 +248,7 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	hypercv_assert(samples > 0 && lines > 0 && bands > 0 && elem_size > 0 && interleave[2] != 0, "hdr file is incomplete or not supported");
 	long int data_size = (long int)samples * lines * bands;
 
-	void* data = (void *)malloc(data_size * elem_size);
+	void* data = (void *)calloc(data_size, elem_size);
 	hypercv_assert(data != NULL, "malloc fail");
 	
 	fread(data, elem_size, data_size, image_fp);
@@ -291,7 +291,7 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 	hypercv_assert(elem_size > 0, "data type is not supported");
 	long int data_size = (long int)samples * lines * bands;
 
-	void* data = (void *)malloc(data_size * elem_size);
+	void* data = (void *)calloc(data_size, elem_size);
 	hypercv_assert(data != NULL, "malloc fail");
 
 	fread(data, elem_size, data_size, image_fp);
diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index c434356..1447cbf 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -80,7 +80,7 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 
 	int elem_size = get_elemsize(data_type);
 	int data_size = rows * cols * channels;
-	void* data = (void *)malloc(data_size * elem_size);
+	void* data = (void *)calloc(data_size, elem_size);
 
 	fread(data, elem_size, data_size, image_fp);
 	fclose(image_fp);
@@ -128,7 +128,7 @@ simple_mat smread_bmp(const char *bmpName)
 	hypercv_assert(fp!=NULL, "BMP IMAGE NOT EXIST");
 
 	fseek(fp, sizeof(BmpFileHeader), SEEK_SET);
-	BmpInfoHeader head;
+	BmpInfoHeader head = {0};
 	fread(&head, sizeof(BmpInfoHeader), 1, fp);
  
 	int channels   = 3;
@@ -139,11 +139,11 @@ simple_mat smread_bmp(const char *bmpName)
 	
 	hypercv_assert(bmpWidth > 0 && bmpHeight > 0 && (biBitCount == 24 || biBitCount == 8), "BMP IMAGE NOT SUPPORTED");
 
-	RGBQUAD pColorTable[256];
+	RGBQUAD pColorTable[256] = {{0}};
 	if (biBitCount == 8)
 		fread(pColorTable, sizeof(RGBQUAD), 256, fp);
 	
-	unsigned char* pBmpBuf = (unsigned char *)malloc(sizeof(unsigned char) * lineByte * bmpHeight);
+	unsigned char* pBmpBuf = (unsigned char *)calloc((size_t)lineByte * bmpHeight, sizeof(unsigned char));
 	hypercv_assert(pBmpBuf != NULL, "malloc fail");
 	fread(pBmpBuf, 1, lineByte * bmpHeight, fp);
 	fclose(fp);
-- 
2.43.0


From 4b28f54113ec323e0f67e8484a9d6f4642fc18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:08 +0000
Subject: [PATCH 89/95] fix: filters and morphology refuse outputs of another
 size instead of writing past them

---
 modules/process/src/c_src/filter.c     | 6 ++++++
 modules/process/src/c_src/gradient.c   | 1 +
 modules/process/src/c_src/morphology.c | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 67df01a..b82f127 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -97,6 +97,7 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 	hypercv_assert(src!= NULL&&dst!=NULL,"input mat cannot be null");
 	hypercv_assert(kernel!=NULL,"kernel cannot be null");
 	hypercv_assert(dst->data_type == 4,"dst data_type == float");
+	hypercv_assert(dst->rows == src->rows&&dst->cols == src->cols&&dst->channels == src->channels,"src size == dst size");
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -153,6 +154,7 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
 	hypercv_assert(size%2==1,"size should be odd number");
+	hypercv_assert(dst_mat->rows == src_mat->rows&&dst_mat->cols == src_mat->cols,"src size == dst size");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int data_type = src_mat->data_type;
@@ -189,6 +191,7 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
+	hypercv_assert(dst_mat->rows == src_mat->rows&&dst_mat->cols == src_mat->cols,"src size == dst size");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int data_type = src_mat->data_type;
@@ -355,6 +358,8 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 
 	if(dst_mat == NULL)
 		dst_mat = create_simple_mat(src_mat->rows, src_mat->cols, src_mat->data_type,cn);
+	hypercv_assert(dst_mat->rows == src_mat->rows&&dst_mat->cols == src_mat->cols&&dst_mat->channels == cn,"src size == dst size");
+	hypercv_assert(kernel_mat_x->data_type == 4&&kernel_mat_y->data_type == 4,"kernel data_type == float");
 	unsigned char* dst_data =(unsigned char*) dst_mat -> data;
 
 	int src_rows = src_mat->rows;
@@ -482,6 +487,7 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 		dst = create_simple_mat(rows,cols,3,1);
 
 	hypercv_assert(dst->channels == 1&&dst->data_type == 3,"dst mat error");
+	hypercv_assert(dst->rows == rows&&dst->cols == cols,"src size == dst size");
 
 	unsigned char* src_data = (unsigned char*)src->data;
 	int* dst_data = (int*)dst->data;
diff --git a/modules/process/src/c_src/gradient.c b/modules/process/src/c_src/gradient.c
index 61638b9..7f7359c 100644
--- a/modules/process/src/c_src/gradient.c
+++ b/modules/process/src/c_src/gradient.c
@@ -17,6 +17,7 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
 {
 	hypercv_assert(src!=NULL&&dst!=NULL, "input mat can not be NULL");
 	hypercv_assert(k_size>0,"kernel size > 0");
+	hypercv_assert(src->rows == dst->rows&&src->cols==dst->cols, "src size == dst size");
 	int cols = src->cols;
 	int rows = src->rows;
 	int channels = src->channels;
diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index 1555552..4861e55 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -18,6 +18,7 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 {
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(s!= NULL, "corrosion kernel cannot be NULL");
+	hypercv_assert(dst_mat==NULL||(dst_mat->rows == mat->rows&&dst_mat->cols == mat->cols),"src size == dst size");
 
 	int rows = mat->rows;
 	int cols = mat->cols;
@@ -82,6 +83,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 {
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(s!= NULL, "expend kernel cannot be NULL");
+	hypercv_assert(dst_mat==NULL||(dst_mat->rows == mat->rows&&dst_mat->cols == mat->cols),"src size == dst size");
 
 	int rows = mat->rows;
 	int cols = mat->cols;
@@ -156,6 +158,7 @@ void hypercv_open(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
+	hypercv_assert(dst->rows == rows&&dst->cols == cols&&dst->channels == channels&&dst->data_type == data_type,"src size == dst size");
 
 	int size = rows*cols*channels*get_elemsize(data_type);
 	simple_mat res = simple_mat_copy(src);
@@ -192,6 +195,7 @@ void hypercv_close(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
+	hypercv_assert(dst->rows == rows&&dst->cols == cols&&dst->channels == channels&&dst->data_type == data_type,"src size == dst size");
 
 	int size = rows*cols*channels*get_elemsize(data_type);
 	simple_mat res = simple_mat_copy(src);
-- 
2.43.0


From 134d93867a639f32ca25a25095eb6456b4ee98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:42 +0000
Subject: [PATCH 90/95] fix: taking a band and splicing refuse targets too
 small instead of writing past them

---
 modules/process/src/c_src/imageprocess.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index efa0e3f..5d1a0d7 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -511,6 +511,8 @@ void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 	int samples,lines;
 	samples = src_mat -> samples;
 	lines = src_mat -> lines;
+	hypercv_assert((size_t)dst_mat->rows*dst_mat->cols*dst_mat->channels*get_elemsize(dst_mat->data_type) >= (size_t)samples*lines*get_elemsize(src_mat->data_type), "simple mat too small for the band");
+	dst_mat -> channels = 1;
 	dst_mat -> rows = lines;
 	dst_mat -> cols = samples;
 	dst_mat -> data_type = src_mat -> data_type;
@@ -638,6 +640,8 @@ void hyper_mat_splicing(hyper_mat mat, hyper_mat part, int start_index)
 	hypercv_assert(mat->data_type == part->data_type,"data type error");
 
 	int elemsize = get_elemsize(mat->data_type); 
+	long size = (long)mat->samples*mat->lines*mat->bands, part_size = (long)part->samples*part->lines*part->bands;
+	hypercv_assert(start_index >= 0 && start_index+part_size <= size,"part must lie inside the mat");
 
 	unsigned char* mat_data = (unsigned char*)mat->data+start_index*elemsize;
 	unsigned char* part_data= (unsigned char*)part->data;
-- 
2.43.0


From 04cb84e9767eccbd67e77e24548d6efbc2ab10e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 91/95] fix: smwrite_bmp refuses channel counts that BMP files
 do not have

---
 modules/core/src/c_src/simplemat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 1447cbf..570154b 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -186,6 +186,7 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 	hypercv_assert(bmpName != NULL, "write bmp image path can not be NULL");
 	hypercv_assert(src_mat != NULL,"save mat can not be null");
 	hypercv_assert(src_mat->data_type == 1,"save mat only 0-255");
+	hypercv_assert(src_mat->channels == 1||src_mat->channels == 3,"save mat only gray or rgb");
 
 	FILE *fp = fopen(bmpName, "wb");
 	hypercv_assert(fp != NULL,"save file can not open");
-- 
2.43.0


From 505e63436c5a9ac2224437e6eddeb58c765d9bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:58 +0000
Subject: [PATCH 92/95] fix: k-means refuses negative thresholds, with which it
 never ended

---
 modules/algorithm/src/cluster.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index a162214..297f8e9 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -26,6 +26,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	hypercv_assert(src != NULL            , "INPUT MAT CANNOT BE Null");
 	hypercv_assert(kind >= 1              , "kind must >=1");
 	hypercv_assert(vector_size(v1) == kind, "input point vector size == kind");
+	hypercv_assert(iter_threshold >= 0    , "iter_threshold must >=0");
 
 	simple_mat mat;
 	if(src->channels != 1)
-- 
2.43.0


From b72d7a29e7f85c5741dbe3a5aacadd57d6f2fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 93/95] fix: hyper_mat_pca refuses results of another size or
 type instead of writing past them

---
 modules/algorithm/src/pca.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index 79b8d83..b8a0a0f 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -42,6 +42,7 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 
 	hypercv_assert(bip_mat->data_type == 4,"only use in float");
 	hypercv_assert(cmpstr(bip_mat->interleave,"bip") == 1,"input mat must be bip");
+	hypercv_assert(res_bip_mat->data_type == 4&&res_bip_mat->samples == bip_mat->samples&&res_bip_mat->lines == bip_mat->lines&&res_bip_mat->bands == bip_mat->bands,"result mat size and type equal");
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
-- 
2.43.0


From e6a35236c348af559dfbd86289ab659773b1242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:14 +0000
Subject: [PATCH 94/95] fix: writehdr refuses sizes that are not positive
 instead of reading before the wavelengths

---
 modules/core/src/c_src/hypermat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 6da07ab..d980be0 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -339,6 +339,7 @@ void hmsave(const char* image_path, hyper_mat mat)
  **/
 void writehdr(const char* img_path, int samples, int lines, int bands, int data_type, const char* interleave, float* wavelength)
 {
+	hypercv_assert(samples > 0 && lines > 0 && bands > 0, "samples, lines and bands must be positive");
 	const char* t = img_path;
 	int len = 0;
 
-- 
2.43.0


From 9b7aa2314ea1f63f10b90e87a67f69f6473b2d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:05 +0000
Subject: [PATCH 95/95] fix: HyMat save does not write through a header file it
 could not open

---
 modules/core/include/cxx_include/hypermat.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 1127be9..fd8c360 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -293,6 +293,11 @@ namespace hypercv
 
 		FILE *fp;
 		fp = fopen(path.c_str(), "w");
+		if(fp == NULL)
+		{
+			printf("can not open files\n");
+			return;
+		}
 
 		fputs("ENVI\n", fp);
 		fputs("samples = ", fp); fprintf(fp, "%d\n", samples);
-- 
2.43.0

