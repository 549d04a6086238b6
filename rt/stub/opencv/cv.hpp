// Model of the OpenCV calls used by the video mixer and splitter. What makes OpenCV throw is an error here.
#pragma once
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <memory>
#include "/verif/symx/symx.h"
#define CV_8UC1 0
#define CV_8UC3 16
#define CV_8UC4 24
namespace cv {
struct Size { int width, height; Size() : width(0), height(0) {} Size(int w, int h) : width(w), height(h) {} };
struct Rect { int x, y, width, height; Rect() : x(0), y(0), width(0), height(0) {} Rect(int x_, int y_, int w, int h) : x(x_), y(y_), width(w), height(h) {} Rect(int x_, int y_, Size s) : x(x_), y(y_), width(s.width), height(s.height) {}
    int area() const { return width * height; } bool empty() const { return width <= 0 || height <= 0; } };
inline Rect operator&(const Rect& a, const Rect& b) { int x = a.x > b.x ? a.x : b.x, y = a.y > b.y ? a.y : b.y, r = a.x + a.width < b.x + b.width ? a.x + a.width : b.x + b.width, t = a.y + a.height < b.y + b.height ? a.y + a.height : b.y + b.height; return r <= x || t <= y ? Rect() : Rect(x, y, r - x, t - y); }
struct Point { int x, y; Point(int a = 0, int b = 0) : x(a), y(b) {} };
struct Scalar { double val[4]; Scalar(double a = 0, double b = 0, double c = 0, double d = 0) { val[0] = a; val[1] = b; val[2] = c; val[3] = d; } static Scalar all(double v) { return Scalar(v, v, v, v); } };
// number of bytes a matrix may allocate here (the harness's pictures are small)
#ifndef CV_MAX_ALLOC
#define CV_MAX_ALLOC 4096
#endif
class Mat {
public:
    int rows, cols, flags; size_t step; unsigned char* data;
    std::shared_ptr<unsigned char> own;
    Mat() : rows(0), cols(0), flags(0), step(0), data(NULL) {}
    Mat(int r, int c, int t) : rows(0), cols(0), flags(t), step(0), data(NULL) { create(r, c, t); }
    Mat(Size s, int t) : rows(0), cols(0), flags(t), step(0), data(NULL) { create(s.height, s.width, t); }
    Mat(int r, int c, int t, const Scalar& s) : rows(0), cols(0), flags(t), step(0), data(NULL) { create(r, c, t); *this = s; }
    Mat(int r, int c, int t, void* d, size_t st = 0) : rows(r), cols(c), flags(t), step(st ? st : (size_t)c * px(t)), data((unsigned char*)d) { symx_assert(r >= 0 && c >= 0, "OpenCV: negative matrix size"); }
    Mat(const Mat& m, const Rect& r) { *this = m(r); }
    static size_t px(int t) { return t == CV_8UC1 ? 1 : t == CV_8UC4 ? 4 : 3; }
    size_t elemSize() const { return px(flags); }
    int type() const { return flags; }
    int channels() const { return (int)px(flags); }
    Size size() const { return Size(cols, rows); }
    bool empty() const { return !data || rows == 0 || cols == 0; }
    size_t total() const { return (size_t)rows * (size_t)cols; }
    bool isContinuous() const { return step == (size_t)cols * elemSize(); }
    unsigned char* ptr(int y = 0) { return data + (size_t)y * step; }
    const unsigned char* ptr(int y = 0) const { return data + (size_t)y * step; }
    void release() { own.reset(); data = NULL; rows = cols = 0; step = 0; }
    void create(int r, int c, int t) {
        symx_assert(r >= 0 && c >= 0, "OpenCV: negative matrix size");
        if (data && r == rows && c == cols && t == flags) return;
        release(); rows = r; cols = c; flags = t; step = (size_t)c * px(t);
        size_t n = (size_t)r * step; bool big = n > CV_MAX_ALLOC;
        if (n) own.reset((unsigned char*)malloc(big ? CV_MAX_ALLOC : n), free);
        data = own.get();
    }
    void create(Size s, int t) { create(s.height, s.width, t); }
    Mat operator()(const Rect& r) const {
        symx_assert(0 <= r.x && 0 <= r.width && r.x <= cols && r.width <= cols - r.x && 0 <= r.y && 0 <= r.height && r.y <= rows && r.height <= rows - r.y, "OpenCV: region outside the matrix");
        Mat m; m.own = own; m.rows = r.height; m.cols = r.width; m.flags = flags; m.step = step; m.data = data + (size_t)r.y * step + (size_t)r.x * elemSize(); return m;
    }
    Mat rowRange(int a, int b) const { return (*this)(Rect(0, a, cols, b - a)); }
    Mat colRange(int a, int b) const { return (*this)(Rect(a, 0, b - a, rows)); }
    Mat clone() const { Mat m; copyTo(m); return m; }
    void copyTo(Mat& m) const {
        if (empty()) { m.release(); return; }
        m.create(rows, cols, flags); copyBytes(m);
    }
    void copyTo(Mat&& m) const { copyTo(m); }
    void copyBytes(Mat& m) const {
        size_t w = symx_concretize((size_t)cols * elemSize()); int h = (int)symx_concretize((uint64_t)rows);
        for (int y = 0; y < h; y++) if (m.ptr(y) != ptr(y)) memcpy(m.ptr(y), ptr(y), w);
    }
    Mat& setTo(const Scalar& s) { return *this = s; }
    Mat& operator=(const Scalar& s) {
        for (int y = 0; y < rows; y++) for (int x = 0; x < cols; x++) for (size_t c = 0; c < elemSize(); c++) data[(size_t)y * step + (size_t)x * elemSize() + c] = (unsigned char)s.val[c];
        return *this;
    }
};
inline void swap(Mat& a, Mat& b) { Mat t(a); a = b; b = t; }
enum { INTER_NEAREST = 0, INTER_LINEAR = 1, INTER_CUBIC = 2, INTER_AREA = 3 };
inline void resize(const Mat& src, Mat& dst, Size s, double fx = 0, double fy = 0, int = INTER_LINEAR) {
    symx_assert(!src.empty(), "OpenCV: resize of an empty matrix");
    if (s.width == 0 && s.height == 0) { s.width = (int)(fx * src.cols + 0.5); s.height = (int)(fy * src.rows + 0.5); }
    symx_assert(s.width > 0 && s.height > 0, "OpenCV: resize to an empty matrix");
    Mat d(s, src.type()); 
    for (int y = 0; y < s.height; y++) for (int x = 0; x < s.width; x++)
        memcpy(d.ptr(y) + (size_t)x * d.elemSize(), src.ptr(y * src.rows / s.height) + (size_t)(x * src.cols / s.width) * src.elemSize(), d.elemSize());
    d.copyTo(dst);
}
inline unsigned char saturate(double v) { return v <= 0 ? 0 : v >= 255 ? 255 : (unsigned char)(v + 0.5); }
inline void addWeighted(const Mat& a, double al, const Mat& b, double be, double ga, Mat&& out) {
    symx_assert(a.rows == b.rows && a.cols == b.cols && a.type() == b.type(), "OpenCV: matrices of different sizes");
    if (a.empty()) return;
    out.create(a.rows, a.cols, a.type());
    for (int y = 0; y < a.rows; y++) for (size_t i = 0; i < (size_t)a.cols * a.elemSize(); i++) out.ptr(y)[i] = saturate(a.ptr(y)[i] * al + b.ptr(y)[i] * be + ga);
}
inline void addWeighted(const Mat& a, double al, const Mat& b, double be, double ga, Mat& out) { addWeighted(a, al, b, be, ga, (Mat&&)out); }
}
