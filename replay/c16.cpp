#include "hz_native.h"
#include "loguru_stub.h"
#include <hzip_core/utils/validation.h>
using namespace hzn;

static std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char c : s.substr(0, 60)) o += c >= 33 && c < 127 ? std::string(1, c) : fmt("\\x%02x", c);
    if (s.size() > 60) o += fmt("...(%zu bytes)", s.size());
    return o;
}

static bool spec(const std::string &s) {
    if (s.empty() || s[0] != '/') return false;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == 0 || s[i] == '\\' || s[i] == ' ') return false;
        if (i && s[i] == '/' && s[i - 1] == '/') return false;
    }
    return true;
}

static void one(const std::string &s) {
    mark("validate path \"" + esc(s) + "\"");
    std::string copy(s);
    bool ok = true;
    try { hz_validate_path(copy); }
    catch (UtilErrors::ValidationError &) { ok = false; }
    catch (...) { fail("path \"" + esc(s) + "\" rejected with something other than a validation error"); }
    if (ok != spec(s)) fail("path \"" + esc(s) + "\" is " + (ok ? "accepted" : "rejected"));
    if (copy != s) fail("validation changed the path");
}

int main(int argc, char **argv) {
    init(argc, argv);
    const std::string al("/\\ \0a.", 6);
    // every string over the alphabet up to length 6
    for (int n = 0; n <= 6; n++) {
        uint64_t tot = 1;
        for (int i = 0; i < n; i++) tot *= al.size();
        for (uint64_t v = 0; v < tot; v++) {
            std::string s;
            for (uint64_t k = v, i = 0; i < (uint64_t) n; i++, k /= al.size()) s += al[k % al.size()];
            one(s);
        }
    }
    for (int b = 0; b < 256; b++) for (std::string p : {"", "/", "/a", "/abc/"}) { one(p + (char) b); one(p + (char) b + "x"); one(p + (char) b + "/y"); }
    while (more()) {
        size_t n = rnd(4) ? rnd(40) : rnd(5000);
        std::string s = "/";
        for (size_t i = 0; i < n; i++) s += (char) (rnd(9) == 0 && s.back() != '/' ? '/' : 'a' + rnd(26));
        if (rnd(10) == 0) s = std::string("/") + std::string(65536 + rnd(3) - 1, 'q') + "/x";
        if (rnd(2) && s.size()) {
            // one defect anywhere, often near the ends
            size_t at = rnd(3) == 0 ? s.size() - 1 : rnd(s.size());
            switch (rnd(5)) {
                case 0: s[at] = ' '; break;
                case 1: s[at] = '\\'; break;
                case 2: s[at] = 0; break;
                case 3: s.insert(at, "//"); break;
                default: s[at] = (char) rng(); break;
            }
        }
        one(s);
    }
    return done();
}
