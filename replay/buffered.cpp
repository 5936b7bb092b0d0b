// SOURCES: fbpcf/io/api/BufferedReader.cpp fbpcf/io/api/BufferedWriter.cpp fbpcf/io/api/FileIOWrappers.cpp fbpcf/io/api/FileReader.cpp fbpcf/io/api/FileWriter.cpp fbpcf/io/api/LocalFileReader.cpp fbpcf/io/api/LocalFileWriter.cpp fbpcf/io/api/CloudFileReader.cpp fbpcf/io/api/CloudFileWriter.cpp fbpcf/exception/ExceptionBase.cpp
// Buffered readers and writers over files that hand over and take their bytes in pieces of any sizes; local files in a
// scratch folder; an in-memory stand-in for the storage service.
#include "common.h"
#include <filesystem>
#include "fbpcf/exception/AwsException.h"
#include "fbpcf/io/api/BufferedReader.h"
#include "fbpcf/io/api/BufferedWriter.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/FileReader.h"
#include "fbpcf/io/api/FileWriter.h"
#include "fbpcf/io/api/LocalFileReader.h"
#include "fbpcf/io/api/LocalFileWriter.h"
#include "fbpcf/io/cloud_util/CloudFileUtil.h"
using namespace bat;
using namespace fbpcf::io;
using S = std::string;

static std::map<S, S> cloud;
static std::map<S, int> completed;
static bool cloudFails = false;
namespace fbpcf::cloudio {
struct MemReader : IFileReader {
  std::string readBytes(const std::string& f, std::size_t a, std::size_t b) override {
    if (cloudFails) throw fbpcf::AwsException("stand-in");
    const S& c = cloud.at(f);
    if (a >= c.size() || b <= a) throw fbpcf::AwsException("InvalidRange");
    return c.substr(a, b - a);
  }
  size_t getFileContentLength(const std::string& f) override { return cloud.at(f).size(); }
};
struct MemUploader : IFileUploader {
  S f;
  explicit MemUploader(S p) : f(p) { cloud[f] = ""; }
  void init() override {}
  int upload(std::vector<char>& b) override {
    if (cloudFails) return 0;
    cloud[f].append(b.begin(), b.end());
    return b.size();
  }
  int complete() override { completed[f]++; return 0; }
};
CloudFileType getCloudFileType(const std::string&) { return CloudFileType::S3; }
std::unique_ptr<IFileReader> getCloudFileReader(const std::string&) { return std::make_unique<MemReader>(); }
std::unique_ptr<IFileUploader> getCloudFileUploader(const std::string& p) { return std::make_unique<MemUploader>(p); }
std::string getCloudProviderString(const std::string&) { return "stand-in"; }
std::string getCloudStorageServiceString(const std::string&) { return "stand-in"; }
} // namespace fbpcf::cloudio

struct MemR : IReaderCloser {
  S c; size_t p = 0; Rng r; int mode; int* closed;
  MemR(S x, uint64_t sd, int m, int* cl) : c(x), r(sd), mode(m), closed(cl) { filepath_ = "mem"; }
  int close() override { (*closed)++; return 0; }
  bool eof() override { return p == c.size(); }
  size_t read(std::vector<char>& b) override {
    if (eof()) throw std::runtime_error("read past the end");
    size_t n = std::min(b.size(), c.size() - p);
    if (mode == 1 && n > 1) n = 1 + r.below(n);
    if (mode == 2) n = 1;
    std::copy(c.begin() + p, c.begin() + p + n, b.begin());
    for (size_t i = n; i < b.size(); i++) b[i] = '\n';
    p += n;
    return n;
  }
};
struct MemW : IWriterCloser {
  S* out; long* left; int* closed;
  MemW(S* o, long* l, int* c) : out(o), left(l), closed(c) { filepath_ = "mem"; }
  int close() override { (*closed)++; return 0; }
  size_t write(std::vector<char>& b) override {
    if (*left >= 0 && (long)b.size() > *left) return b.size() - 1;
    if (*left >= 0) *left -= b.size();
    out->append(b.begin(), b.end());
    return b.size();
  }
};
S text(Rng& r, size_t n, int sparse) {
  S s;
  for (size_t i = 0; i < n; i++) s += r.below(sparse) == 0 ? '\n' : (char)(r.below(40) == 0 ? r.below(256) : 'a' + r.below(26));
  return s;
}
S brief(const S& s) {
  S o = cat(s.size(), " bytes ");
  for (size_t i = 0; i < s.size() && i < 24; i++) o += s[i] == '\n' ? S("\\n") : (s[i] >= ' ' && s[i] < 127) ? S(1, s[i]) : S("?");
  return o;
}
std::vector<size_t> sizesOf(size_t chunk) {
  std::vector<size_t> v{0, 1, 2, 3, 7};
  for (size_t k : {1, 2, 3, 5})
    for (int d = -2; d <= 2; d++) if ((long)(k * chunk) + d > 0) v.push_back(k * chunk + d);
  return v;
}

void reads() {
  Rng r(seed * 3 + 1);
  std::vector<size_t> chunks{1, 2, 3, 8, 64};
  if (thorough()) chunks = {1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 257};
  for (size_t chunk : chunks) for (size_t n : sizesOf(chunk)) for (int mode = 0; mode < 3; mode++) for (int sparse : {2, 9, 1000}) {
    S c = text(r, n, sparse);
    if (r.bit() && n) c[n - 1] = '\n';
    S what = cat("file of ", brief(c), " in chunks of ", chunk, mode ? ", short reads" : "");
    int closed = 0;
    {
      BufferedReader b(std::make_unique<MemR>(c, r.next(), mode, &closed), chunk);
      size_t p = 0;
      int op = r.below(3);
      for (int steps = 0; steps < 5000; steps++) {
        check(b.eof() == (p == c.size()), cat(what, ": end at ", p));
        if (p == c.size()) break;
        if (op == 0 || (op == 2 && r.bit())) {
          size_t q = c.find('\n', p);
          S want = c.substr(p, q == S::npos ? S::npos : q - p);
          S got = b.readLine();
          check(got == want, cat(what, ": line at ", p, " is ", brief(got), ", not ", brief(want)));
          p = q == S::npos ? c.size() : q + 1;
        } else {
          std::vector<char> buf(r.below(3) == 0 ? r.below(3 * chunk + 2) : 1 + r.below(chunk + 1), 'Z');
          size_t want = std::min(buf.size(), c.size() - p), k = b.read(buf);
          check(k == want && S(buf.begin(), buf.begin() + std::min(k, buf.size())) == c.substr(p, want), cat(what, ": reading ", buf.size(), " bytes at ", p, " gives ", k, " bytes"));
          p += want;
        }
        if (nfail) return;
      }
      std::vector<char> one(1);
      check(throwsAny([&] { b.read(one); }) && throwsAny([&] { b.readLine(); }), cat(what, ": reading at the end is not rejected"));
      b.close();
      check(closed >= 1, cat(what, ": not closed"));
    }
  }
}
void writes() {
  Rng r(seed * 5 + 2);
  for (size_t chunk : {1, 2, 3, 8, 64}) for (int rep = 0; rep < (thorough() ? 400 : 60); rep++) {
    S out, all;
    long left = -1;
    int closed = 0;
    S what = cat("chunks of ", chunk);
    {
      BufferedWriter b(std::make_unique<MemW>(&out, &left, &closed), chunk);
      int ops = r.below(8);
      for (int i = 0; i < ops; i++) {
        auto sz = sizesOf(chunk);
        S t = text(r, sz[r.below(sz.size())], 9);
        what += cat(", ", t.size());
        size_t k;
        if (r.bit()) k = b.writeString(t);
        else { std::vector<char> v(t.begin(), t.end()); k = b.write(v); }
        check(k == t.size(), cat(what, ": ", k, " bytes taken"));
        all += t;
        check(all.substr(0, out.size()) == out, cat(what, ": the file has other bytes"));
        if (r.below(4) == 0) { b.flush(); what += " flush"; check(out == all, cat(what, ": the file has ", out.size(), " bytes, not ", all.size())); }
      }
      if (r.bit()) { b.close(); check(out == all && closed >= 1, cat(what, ": after close the file has ", out.size(), " bytes, not ", all.size())); }
    }
    check(out == all && closed >= 1, cat(what, ": at the end the file has ", out.size(), " bytes, not ", all.size()));
    // a file that stops taking bytes
    S out2;
    left = r.below(chunk * 3);
    long cap = left;
    int closed2 = 0;
    bool th = false;
    S t = text(r, cap + 1 + r.below(chunk * 2), 9);
    BufferedWriter* b = new BufferedWriter(std::make_unique<MemW>(&out2, &left, &closed2), chunk);
    th = throwsAny([&] { b->writeString(t); b->flush(); });
    check(th, cat("chunks of ", chunk, ": ", t.size(), " bytes into a file that takes ", cap, " are not rejected"));
  }
}
void files() {
  char dir[] = "/tmp/vc_buffered_XXXXXX";
  if (!mkdtemp(dir)) return;
  Rng r(seed * 7 + 3);
  struct Rm { S d; ~Rm() { std::filesystem::remove_all(d); } } rm{dir};
  auto raw = [](const S& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); };
  int i = 0;
  std::vector<size_t> ns{0, 1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000};
  // (a buffered reader of an object allocates 1 GB: few of those)
  for (bool inCloud : {false, true}) for (size_t n : inCloud ? std::vector<size_t>{0, 9000} : ns) for (int end = 0; end < 2; end++) {
    S c = text(r, n, n % 2 ? 50 : 700);
    if (n) c[n - 1] = end ? '\n' : 'x';
    auto path = [&](const S& s) { return inCloud ? "https://stand-in/" + s : S(dir) + "/sub/" + s; };
    auto get = [&](const S& p) { return inCloud ? cloud[p] : raw(p); };
    S a = path(cat("a", i)), b = path(cat("b", i));
    i++;
    FileIOWrappers::writeFile(a, c);
    S what = cat(inCloud ? "object" : "file", " of ", n, " bytes ", end ? "ending in a line break" : "");
    check(get(a) == c, cat(what, ": written as ", brief(get(a))));
    S want = c;
    if (n && c.back() != '\n') want += '\n';
    S back = FileIOWrappers::readFile(a);
    check(back == want, cat(what, ": read back as ", brief(back)));
    FileIOWrappers::transferFileInParts(a, b);
    check(get(b) == want, cat(what, ": copied as ", brief(get(b))));
    if (inCloud) check(completed[b] == 1, cat(what, ": upload completed ", completed[b], " times"));
    // unbuffered
    FileReader fr(a);
    S got;
    std::vector<char> buf;
    while (!fr.eof()) {
      buf.assign(1 + r.below(3000), 'Q');
      size_t k = fr.read(buf);
      if (k > buf.size()) { fail(cat(what, ": unbuffered read returns ", k)); return; }
      got.append(buf.begin(), buf.begin() + k);
    }
    check(got == c, cat(what, ": unbuffered reading gives ", brief(got)));
    {
      FileWriter fw(b);
      size_t p = 0;
      while (p < n) {
        size_t k = std::min<size_t>(n - p, 1 + r.below(3000));
        std::vector<char> v(c.begin() + p, c.begin() + p + k);
        check(fw.write(v) == k, cat(what, ": unbuffered write"));
        p += k;
      }
      check(fw.close() == 0, cat(what, ": close"));
    }
    check(get(b) == c, cat(what, ": unbuffered writing gives ", brief(get(b))));
    if (inCloud && n) {
      cloudFails = true;
      FileReader f2(a);
      buf.assign(10, 0);
      check(throwsAny([&] { f2.read(buf); }), cat(what, ": a failing service is not reported by the reader"));
      cloudFails = false;
    }
  }
  cloudFails = true;
  check(throwsAny([&] { auto* w = new BufferedWriter(std::make_unique<FileWriter>("https://stand-in/f")); w->writeString("abc"); w->flush(); }), "a failing upload is not reported");
  cloudFails = false;
  check(throwsAny([&] { FileReader x(S(dir) + "/missing"); }), "a missing file is not rejected");
  // tables
  for (int rep = 0; rep < 20; rep++) {
    S p = S(dir) + "/t.csv", c;
    size_t cols = 1 + r.below(5), rows = r.below(6);
    std::vector<std::vector<S>> want;
    for (size_t y = 0; y <= rows; y++) {
      want.emplace_back();
      for (size_t x = 0; x < cols; x++) {
        S f;
        for (size_t k = 1 + r.below(4); k--;) f += 'a' + r.below(26);
        want.back().push_back(f);
        c += (x ? (r.bit() ? "," : " , ") : "") + f;
      }
      if (y < rows || r.bit()) c += "\n";
    }
    FileIOWrappers::writeFile(p, c);
    std::vector<std::vector<S>> got;
    bool hdr = true, once = false;
    FileIOWrappers::readCsv(p, [&](const std::vector<S>& h, const std::vector<S>& l) { hdr = hdr && h == want[0]; got.push_back(l); }, [&](const std::vector<S>& h) { once = got.empty(); got.push_back(h); });
    check(once && hdr && got == want, cat("table of ", rows, " rows and ", cols, " columns: ", brief(c)));
  }
}
int main(int argc, char** argv) {
  return run(argc, argv, {
    {"I01", reads, "reading"},
    {"I01", writes, "writing"},
    {"I01", files, "files"},
  });
}
