#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <stdarg.h>
#include <string.h>
#include <ctype.h>
#include <limits.h>
#include <time.h>
#include <errno.h>
#include <stdint.h>
#ifdef __cplusplus
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <algorithm>
#include <limits>
#endif
#include "gdal/gdal.h"
#ifdef __cplusplus
struct GDALDataset {};
struct GDALDriver { GDALDataset* Create(const char*,int,int,int,GDALDataType,char**){ return nullptr; } };
struct GDALDriverManager { GDALDriver d; GDALDriver* GetDriverByName(const char*){ return &d; } };
inline void GDALAllRegister(){} inline GDALDriverManager* GetGDALDriverManager(){ static GDALDriverManager m; return &m; } inline void GDALClose(GDALDataset*){}
#endif
