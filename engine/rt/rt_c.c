// libc leaves as analysable C source (behaviour per the C standard / glibc for the subset used).
#include <stddef.h>
#include <stdarg.h>
#include <stdbool.h>
#include <time.h>
#include <stdlib.h>
void sx_libc_unsupported(const char* what);   // unresolved on purpose: reported by the engine
size_t strlen(const char*);
void* memcpy(void*, const void*, size_t);
int isalnum(int); int isprint(int); int isxdigit(int);
char __libc_single_threaded = 0;
char* __cxa_demangle(const char* mangled, char* buf, size_t* len, int* status) { // identity model: names are diagnostics only
	size_t n = strlen(mangled); char* r = (char*)malloc(n + 1); memcpy(r, mangled, n + 1); if (status) *status = 0; (void)buf; (void)len; return r; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (; n; --n, ++s) if (*s == (unsigned char)c) return (void*)s; return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { char* r = d; while (n && *s) { *d++ = *s++; --n; } while (n--) *d++ = 0; return r; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int rand(void) { return 4; }
char* strerror_r(int e, char* b, size_t n) { if (n) b[0] = 0; return b; }

// snprintf subset: %[0][width]{d,u,x,X,c,s,ld,lu,lld,llu,lx,zu,hd,hhx}
static void pch(char* b, size_t n, size_t* k, char c) { if (*k + 1 < n) b[*k] = c; ++*k; }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
	size_t k = 0;
	for (; *f; ++f) {
		if (*f != '%') { pch(b, n, &k, *f); continue; }
		++f; bool zero = false, plus = false; int width = 0;
		for (;; ++f) { if (*f == '0') zero = true; else if (*f == '+') plus = true; else break; }
		while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
		int l = 0, h = 0; while (*f == 'l') { ++l; ++f; } while (*f == 'h') { ++h; ++f; } if (*f == 'z') { l = 1; ++f; }
		if (*f == '%') { pch(b, n, &k, '%'); continue; }
		if (*f == 'c') { pch(b, n, &k, (char)va_arg(ap, int)); continue; }
		if (*f == 's') { const char* s = va_arg(ap, const char*); while (*s) pch(b, n, &k, *s++); continue; }
		if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X') {
			bool neg = false; unsigned long long v; unsigned base = *f == 'x' || *f == 'X' ? 16 : 10;
			if (*f == 'd' || *f == 'i') { long long s = l ? va_arg(ap, long long) : (long long)va_arg(ap, int); if (h == 1) s = (short)s; if (h == 2) s = (signed char)s; neg = s < 0; v = neg ? 0ull - (unsigned long long)s : (unsigned long long)s; }
			else { v = l ? va_arg(ap, unsigned long long) : (unsigned long long)va_arg(ap, unsigned); if (h == 1) v = (unsigned short)v; if (h == 2) v = (unsigned char)v; }
			char t[24]; int c = 0; do { unsigned d = (unsigned)(v % base); t[c++] = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10); v /= base; } while (v);
			int pad = width - c - (neg || plus ? 1 : 0);
			if (!zero) while (pad-- > 0) pch(b, n, &k, ' ');
			if (neg) pch(b, n, &k, '-'); else if (plus) pch(b, n, &k, '+');
			if (zero) while (pad-- > 0) pch(b, n, &k, '0');
			while (c) pch(b, n, &k, t[--c]);
			continue;
		}
		sx_libc_unsupported("snprintf format");
	}
	if (n) b[k < n ? k : n - 1] = 0;
	return (int)k;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }

// sscanf subset: literals, white space, %[width]{d,u,x,hd,hhx,ld,lld,c}
int vsscanf(const char* s, const char* f, va_list ap) {
	const char* s0 = s; int cnt = 0; (void)s0;
	for (; *f; ++f) {
		if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) ++s; continue; }
		if (*f != '%') { if (*s != *f) return cnt == 0 && !*s ? -1 : cnt; ++s; continue; }
		++f; int width = 0; while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
		int l = 0, h = 0; while (*f == 'l') { ++l; ++f; } while (*f == 'h') { ++h; ++f; }
		if (*f == 'c') { if (!*s) return cnt ? cnt : -1; *va_arg(ap, char*) = *s++; ++cnt; continue; }
		if (*f == 'd' || *f == 'u' || *f == 'x') {
			while (isspace((unsigned char)*s)) ++s;
			if (!*s) return cnt ? cnt : -1;
			if (!width) width = 1 << 20;
			bool neg = false; if (*s == '-' || *s == '+') { neg = *s == '-'; ++s; --width; }
			unsigned base = *f == 'x' ? 16 : 10; bool any = false; unsigned long long v = 0; bool ovf = false;
			if (base == 16 && width >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { s += 2; width -= 2; if (!isxdigit((unsigned char)*s)) return cnt; }
			while (width-- > 0) {
				unsigned d; if (*s >= '0' && *s <= '9') d = *s - '0'; else if (base == 16 && *s >= 'a' && *s <= 'f') d = *s - 'a' + 10; else if (base == 16 && *s >= 'A' && *s <= 'F') d = *s - 'A' + 10; else break;
				if (v > (0xffffffffffffffffull - d) / base) ovf = true;
				v = v * base + d; any = true; ++s;
			}
			if (!any) return cnt;
			unsigned long long r;
			if (*f == 'd') { if (neg) r = (ovf || v > 0x8000000000000000ull) ? 0x8000000000000000ull : 0 - v; else r = (ovf || v > 0x7fffffffffffffffull) ? 0x7fffffffffffffffull : v; }
			else r = ovf ? ~0ull : neg ? 0 - v : v;
			void* p = va_arg(ap, void*);
			if (l) *(unsigned long long*)p = r; else if (h == 1) *(unsigned short*)p = (unsigned short)r; else if (h == 2) *(unsigned char*)p = (unsigned char)r; else *(unsigned*)p = (unsigned)r;
			++cnt; continue;
		}
		sx_libc_unsupported("sscanf format");
	}
	return cnt;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }

// proleptic Gregorian conversions (UTC)
static long long daysFromCivil(long long y, int m, int d) {
	y -= m <= 2; long long era = (y >= 0 ? y : y - 399) / 400; long long yoe = y - era * 400; long long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; long long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468;
}
struct tm* gmtime_r(const time_t* t, struct tm* r) {
	long long s = *t; long long days = s / 86400, rem = s % 86400; if (rem < 0) { rem += 86400; --days; }
	r->tm_hour = (int)(rem / 3600); r->tm_min = (int)(rem % 3600 / 60); r->tm_sec = (int)(rem % 60);
	long long wd = (days + 4) % 7; if (wd < 0) wd += 7; r->tm_wday = (int)wd;
	long long z = days + 719468; long long era = (z >= 0 ? z : z - 146096) / 146097; long long doe = z - era * 146097; long long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long long y = yoe + era * 400; long long doy = doe - (365 * yoe + yoe / 4 - yoe / 100); long long mp = (5 * doy + 2) / 153; int d = (int)(doy - (153 * mp + 2) / 5 + 1); int m = (int)(mp < 10 ? mp + 3 : mp - 9); y += m <= 2;
	r->tm_year = (int)(y - 1900); r->tm_mon = m - 1; r->tm_mday = d; r->tm_yday = (int)(days - daysFromCivil(y, 1, 1)); r->tm_isdst = 0; r->tm_gmtoff = 0; r->tm_zone = "GMT";
	return r;
}
time_t timegm(struct tm* t) {
	long long y = 1900ll + t->tm_year; long long mon = t->tm_mon; y += mon / 12; mon %= 12; if (mon < 0) { mon += 12; --y; }
	long long days = daysFromCivil(y, (int)mon + 1, 1) + t->tm_mday - 1;
	time_t r = days * 86400 + t->tm_hour * 3600ll + t->tm_min * 60ll + t->tm_sec;
	gmtime_r(&r, t);
	return r;
}
