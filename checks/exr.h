// An uncompressed single precision OpenEXR file, written from the format's specification.
#pragma once
#include <string>
#include <vector>
#include <cstring>
#include <cstdint>
namespace exr {
template<class T> inline void put(std::string& s, T v) { s.append((const char*)&v, sizeof(T)); }
inline void attr(std::string& s, const char* name, const char* type, const std::string& v) { s += name; s += '\0'; s += type; s += '\0'; put<int32_t>(s, (int32_t)v.size()); s += v; }
// pix[3*(y*w+x)+c], c = R, G, B
inline std::string file(int w, int h, const std::vector<float>& pix) {
  std::string s; put<uint32_t>(s, 20000630u); put<uint32_t>(s, 2u); std::string ch; for(const char* c : { "B", "G", "R" }) { ch += c; ch += '\0'; put<int32_t>(ch, 2); put<int32_t>(ch, 0); put<int32_t>(ch, 1); put<int32_t>(ch, 1); } ch += '\0'; attr(s, "channels", "chlist", ch);
  attr(s, "compression", "compression", std::string(1, '\0')); std::string b; put<int32_t>(b, 0); put<int32_t>(b, 0); put<int32_t>(b, w-1); put<int32_t>(b, h-1); attr(s, "dataWindow", "box2i", b); attr(s, "displayWindow", "box2i", b); attr(s, "lineOrder", "lineOrder", std::string(1, '\0')); std::string f; put<float>(f, 1); attr(s, "pixelAspectRatio", "float", f); std::string c; put<float>(c, 0); put<float>(c, 0); attr(s, "screenWindowCenter", "v2f", c); attr(s, "screenWindowWidth", "float", f); s += '\0';
  size_t base = s.size() + 8*h, line = 8 + 12*(size_t)w; for(int y=0;y<h;++y) put<uint64_t>(s, base + y*line);
  for(int y=0;y<h;++y) { put<int32_t>(s, y); put<int32_t>(s, 12*w); for(int k=2;k>=0;--k) for(int x=0;x<w;++x) put<float>(s, pix[3*(y*w+x)+k]); } return s; }
}
