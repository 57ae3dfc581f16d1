// Property-based testing engine: choice-sequence generation, worker processes, shrinking, replay.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace pbt {

// Source of every random choice of a case. In generation mode draws come from a PRNG and are recorded;
// in replay mode they come from the recorded buffer (zeros past its end). Zero is the simplest choice.
class Src {
 public:
    enum Mode { kGenerate, kReplay };
    Src(Mode m, uint64_t seed, const uint8_t *buf, size_t n, uint8_t *rec, size_t reccap, volatile uint32_t *reclen);
    uint8_t byte();
    uint64_t bits(int nbytes);
    // uniform in [lo, hi]
    int64_t range(int64_t lo, int64_t hi);
    // true with probability num/den; false is the simple choice
    bool chance(unsigned num, unsigned den);
    size_t index(size_t n) { return static_cast<size_t>(range(0, static_cast<int64_t>(n) - 1)); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[index(v.size())]; }
    // weighted choice
    size_t weighted(const std::vector<unsigned> &w);
    bool exhausted() const { return mMode == kReplay && mPos >= mN; }
    size_t used() const { return mPos; }
    // A case may ask that no further choices be recorded past a size (protects memory).
    bool full() const { return mMode == kGenerate && mPos >= mRecCap; }

 private:
    Mode mMode;
    uint64_t s[2];
    const uint8_t *mBuf;
    size_t mN;
    size_t mPos = 0;
    uint8_t *mRec;
    size_t mRecCap;
    volatile uint32_t *mRecLen;
};

// What one case reports.
class Ctx {
 public:
    bool nontrivial = false;
    std::string desc;                       // human readable case description (for samples and replays)
    std::map<std::string, unsigned> labels;  // classification
    bool verbose = false;
    std::string scratch;                    // scratch directory of this process
    int tier = 0;                           // 0 quick, 1 thorough
    void label(const std::string &l) { labels[l]++; }
    void d(const std::string &s);           // append to the description (also visible after a crash)
    // Report a violation: does not return.
    [[noreturn]] void fail(const std::string &tag, const std::string &msg);
    void check(bool ok, const std::string &tag, const std::string &msg) { if (!ok) fail(tag, msg); }
};

struct Property {
    const char *id;
    const char *rule;                       // evidence rule text
    void (*run)(Src &, Ctx &);              // one case
    unsigned quick_cases;
    unsigned thorough_cases;
    unsigned cpu_seconds = 30;              // per-case CPU bound (crash/livelock detector)
    void (*fixed)(std::vector<std::vector<uint8_t>> &) = nullptr;  // optional fixed choice sequences
    bool leak_check = false;
    bool racy = false;                      // a failure depends on the schedule too: one reproduction in many replays suffices
};

extern Property property;                   // defined by the property's translation unit

uint64_t hash64(const std::string &s);
std::string esc(const std::string &s, size_t max = 400);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int64_t real_us();

}  // namespace pbt
