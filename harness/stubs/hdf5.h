/* Stand-in for HDF5: datasets kept in memory, with HDF5's conversion between
   the stored and the requested number type. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int64_t hid_t; typedef int herr_t; typedef unsigned long long hsize_t; typedef int htri_t;
#ifndef HBOOL
typedef bool hbool_t;
#endif
enum { HF_F64 = 1001, HF_F80, HF_F128, HF_INT, HF_HSIZE, HF_BOOL, HF_CHAR };
#define H5T_NATIVE_DOUBLE ((hid_t)HF_F64)
#define H5T_IEEE_F64LE ((hid_t)HF_F64)
#define H5T_NATIVE_LDOUBLE ((hid_t)HF_F80)
#define H5T_NATIVE_INT ((hid_t)HF_INT)
#define H5T_NATIVE_HSIZE ((hid_t)HF_HSIZE)
#define H5T_NATIVE_HBOOL ((hid_t)HF_BOOL)
#define H5T_NATIVE_CHAR ((hid_t)HF_CHAR)
#define H5P_DEFAULT ((hid_t)0)
#define H5S_ALL ((hid_t)0)
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5F_ACC_TRUNC 2u
typedef enum { H5F_SCOPE_LOCAL, H5F_SCOPE_GLOBAL } H5F_scope_t;
typedef enum { H5S_NO_CLASS = -1, H5S_SCALAR, H5S_SIMPLE, H5S_NULL } H5S_class_t;
typedef enum { H5T_NO_CLASS = -1, H5T_INTEGER, H5T_FLOAT } H5T_class_t;
hid_t H5Fcreate(const char *, unsigned, hid_t, hid_t); hid_t H5Fopen(const char *, unsigned, hid_t); herr_t H5Fclose(hid_t); herr_t H5Fflush(hid_t, H5F_scope_t);
htri_t H5Lexists(hid_t, const char *, hid_t); herr_t H5Ldelete(hid_t, const char *, hid_t);
hid_t H5Screate(H5S_class_t); hid_t H5Screate_simple(int, const hsize_t *, const hsize_t *); herr_t H5Sclose(hid_t);
int H5Sget_simple_extent_ndims(hid_t); int H5Sget_simple_extent_dims(hid_t, hsize_t *, hsize_t *); H5S_class_t H5Sget_simple_extent_type(hid_t);
hid_t H5Tcopy(hid_t); herr_t H5Tclose(hid_t); H5T_class_t H5Tget_class(hid_t);
herr_t H5Tset_size(hid_t, size_t); herr_t H5Tset_precision(hid_t, size_t); herr_t H5Tset_fields(hid_t, size_t, size_t, size_t, size_t, size_t); herr_t H5Tset_ebias(hid_t, size_t);
hid_t H5Dcreate(hid_t, const char *, hid_t, hid_t, hid_t, hid_t, hid_t); hid_t H5Dopen(hid_t, const char *, hid_t); herr_t H5Dclose(hid_t); hid_t H5Dget_type(hid_t); hid_t H5Dget_space(hid_t);
herr_t H5Dwrite(hid_t, hid_t, hid_t, hid_t, hid_t, const void *); herr_t H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void *);
#ifdef __cplusplus
}
#endif
