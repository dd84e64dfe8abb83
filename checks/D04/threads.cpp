// Threads evaluating one PSF stack: every schedule up to the preemption bound.
#include <thread>
#include "mc.h"
#include "common/scratch.h"
#include <fitsio.h>
#include "SEFramework/Psf/VariablePsf.h"
#include "SEFramework/Psf/VariablePsfStack.h"
using namespace SourceXtractor;
static void write(const std::string& n) {
  fitsfile* f; int s = 0; long a[2] = {9, 3};
  fits_create_file(&f, ("!" + n).c_str(), &s); fits_create_img(f, BYTE_IMG, 0, nullptr, &s); fits_create_img(f, FLOAT_IMG, 2, a, &s);
  std::vector<float> d; for (int i = 0; i < 27; ++i) d.push_back(i); fits_write_img(f, TFLOAT, 1, 27, d.data(), &s);
  int z = 3; fits_write_key(f, TINT, "STMPSIZE", &z, nullptr, &s);
  const char* c[] = {"GRIDX", "GRIDY", "RA", "DEC", "X", "Y"}; const char* t[] = {"1E", "1E", "1E", "1E", "1E", "1E"};
  fits_create_tbl(f, BINARY_TBL, 3, 6, const_cast<char**>(c), const_cast<char**>(t), nullptr, "POS", &s);
  for (int k = 1; k <= 6; ++k) { float v[3]; for (int i = 0; i < 3; ++i) v[i] = k == 1 ? 2 + 3 * i : k == 2 ? 2 : k == 5 ? 10 * i : 0; fits_write_col(f, TFLOAT, k, 1, 1, 3, v, &s); }
  fits_close_file(f, &s); if (s) abort();
}
static void stack(vk::Run& r, const std::string& key, const std::string& what, std::vector<std::vector<int>> th, int pre) {
  Scratch dir; write(dir("s.fits"));
  mc::Options o; o.preemptions = pre;
  mc::explore(r, key, what, o, [=, &dir] {
    std::unique_ptr<VariablePsfStack> p;
    { mc::Untracked u; p.reset(new VariablePsfStack(std::make_shared<CCfits::FITS>(dir("s.fits"), CCfits::Read))); }
    auto run = [&](const std::vector<int>& v) {
      for (int k : v) {
        auto im = p->getPsf({10. * k + 1, 0.});
        bool ok = im->getWidth() == 3 && im->getHeight() == 3;
        for (int y = 0; ok && y < 3; ++y) for (int x = 0; x < 3; ++x) ok = ok && im->getValue(x, y) == 9 * y + 3 * k + x;
        mc::require(ok, "stack-value", "PSF " + std::to_string(k) + " is wrong");
      }
    };
    std::vector<std::thread> ts;
    for (size_t i = 1; i < th.size(); ++i) ts.emplace_back([&run, &th, i] { run(th[i]); });
    run(th[0]);
    for (auto& t : ts) t.join();
    mc::observe(1);
    mc::Untracked u; p.reset();
  });
}
VK_SUITE(stack_threads) {
  int p = r.thorough() ? 3 : 2;
  stack(r, "psf/two", "two threads evaluate a stack", {{0, 2}, {1, 0}}, p);
  stack(r, "psf/three", "three threads evaluate a stack", {{0}, {1}, {2}}, p - 1);
}
