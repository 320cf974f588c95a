// Driver for column printing, number formatting, message display and the timer; public API only.
#include "vh.h"
#include "capture.h"
#include "mathic/ColumnPrinter.h"
#include "mathic/display.h"
#include "mathic/Timer.h"
#include "mathic/error.h"
#include <cmath>
#include <ctime>

using namespace vh;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3000"; }

// the processor clock, replaced by one that the script controls
static clock_t g_clock = 0;
extern "C" clock_t clock() noexcept { return g_clock; }

typedef mathic::ColumnPrinter CP;
typedef unsigned long long ull;

static std::string codes(const std::string& s) {
  std::string r = "[";
  for (size_t k = 0; k < s.size(); ++k) { if (k) r += ","; r += std::to_string((int)(unsigned char)s[k]); }
  return r + "]";
}

static void run(const Script& s) {
  std::unique_ptr<CP> cp;
  std::unique_ptr<mathic::Timer> timer;
  ull base = 0;
  Ev("begin").done();
  for (auto& op : s.ops) {
    const std::string& o = op.name();
    if (o == "num") {                // num FN A SHA B SHB : arguments A / 2^SHA (or A * 2^-SHA)
      const std::string& fn = op.t[1];
      ull a = strtoull(op.t[2].c_str(), 0, 10), b = strtoull(op.t[4].c_str(), 0, 10);
      int sa = (int)op.i(3), sb = (int)op.i(5);
      double da = std::ldexp((double)a, -sa), db = std::ldexp((double)b, -sb);
      std::string out;
      if (fn == "commafy") out = CP::commafy(a);
      else if (fn == "si") out = CP::withSIPrefix(a);
      else if (fn == "bytes") out = CP::bytesInUnit(a);
      else if (fn == "one") out = CP::oneDecimal(da);
      else if (fn == "pct1") out = CP::percentDouble(da);
      else if (fn == "pcti") out = CP::percentInteger(a, b);
      else if (fn == "pctf") out = CP::percentIntegerFixed(a, b);
      else if (fn == "pctd") out = CP::percentDouble(da, db);
      else if (fn == "ratioi") out = CP::ratioInteger(a, b);
      else if (fn == "ratiod") out = CP::ratioDouble(da, db);
      else throw std::runtime_error("bad fn " + fn);
      std::string ja = "{\"d\":" + codes(std::to_string(a)) + ",\"sh\":" + std::to_string(sa) + "}";
      std::string jb = "{\"d\":" + codes(std::to_string(b)) + ",\"sh\":" + std::to_string(sb) + "}";
      Ev("num").s("fn", fn).j("a", ja).j("b", jb).t("out", out).done();
    } else if (o == "new") {
      cp.reset(op.i(1) == 0 ? new CP() : new CP((size_t)op.i(1)));
      Ev("new").n("n", op.i(1)).done();
    } else if (o == "prefix") {
      cp->setPrefix(unhex(op.t[1]));
      Ev("prefix").t("p", unhex(op.t[1])).done();
    } else if (o == "col") {         // col HEXprefix HEXsuffix left HEXtext
      std::string p = unhex(op.t[1]), x = unhex(op.t[2]), w = unhex(op.t[4]);
      bool left = op.i(3) != 0;
      std::ostream* st;
      if (x.empty() && p == "  ") st = left ? &cp->addColumn() : &cp->addColumn(false);
      else if (x.empty()) st = &cp->addColumn(left, p);
      else st = &cp->addColumn(left, p, x);
      Ev("col").t("p", p).t("s", x).b("left", left).done();
      if (!w.empty()) {
        *st << w;
        Ev("write").n("i", cp->getColumnCount()).t("w", w).done();
      }
    } else if (o == "write") {
      if (!cp || cp->getColumnCount() == 0) continue;
      size_t i = (size_t)op.i(1) % cp->getColumnCount();
      (*cp)[i] << unhex(op.t[2]);
      Ev("write").n("i", i + 1).t("w", unhex(op.t[2])).done();
    } else if (o == "fill") {
      if (!cp || cp->getColumnCount() == 0) continue;
      size_t i = (size_t)op.i(1) % cp->getColumnCount();
      cp->repeatToEndOfLine((char)op.i(2), i);
      Ev("fill").n("i", i + 1).n("c", op.i(2)).done();
    } else if (o == "fillall") {
      cp->repeatToEndOfLine((char)op.i(1));
      Ev("fillall").n("c", op.i(1)).done();
    } else if (o == "print") {       // print 0|1|2
      std::string out;
      if (op.i(1) == 0) { std::ostringstream st; cp->print(st); out = st.str(); }
      else if (op.i(1) == 1) { std::ostringstream st; st << *cp; out = st.str(); }
      else {
        FILE* f = tmpfile();
        mathic::print(f, *cp);
        rewind(f);
        int c;
        while ((c = fgetc(f)) != EOF) out += (char)c;
        fclose(f);
      }
      Ev("print").t("out", out).done();
      Ev("count").n("n", cp->getColumnCount()).done();
    } else if (o == "display") {     // display KIND HEXmsg HEXprefix
      std::string msg = unhex(op.t[2]), p = unhex(op.t[3]), out, eff = msg;
      long k = op.i(1);
      {
        Capture cap(2);
        if (k == 0) { if (p.empty()) mathic::display(msg); else mathic::display(msg, p); }
        else if (k == 1) { mathic::displayNote(msg); eff = "NOTE: " + msg + "\n"; p = ""; }
        else if (k == 2) { mathic::displayError(msg); eff = "ERROR: " + msg + "\n"; p = ""; }
        else if (k == 3) { mathic::displayInternalError(msg); eff = "INTERNAL ERROR: " + msg + "\n"; p = ""; }
        else { mathic::displayException(mathic::MathicException(msg)); p = ""; }
        out = cap.finish();
      }
      Ev("display").t("msg", eff).t("p", p).t("out", out).done();
    } else if (o == "timer") {
      base = strtoull(op.t[1].c_str(), 0, 10);
      g_clock = (clock_t)base;
      timer.reset(new mathic::Timer());
      Ev("treset").done();
    } else if (o == "treset") {
      timer->reset();
      base = (ull)g_clock;
      Ev("treset").done();
    } else if (o == "time") {        // time US : so many microseconds after the last reset
      g_clock = (clock_t)(base + strtoull(op.t[1].c_str(), 0, 10));
      unsigned long ms = timer->getMilliseconds();
      std::ostringstream st;
      if (op.i(2)) st << *timer; else timer->print(st);
      FILE* f = tmpfile();
      timer->print(f);
      rewind(f);
      std::string fo;
      int c;
      while ((c = fgetc(f)) != EOF) fo += (char)c;
      fclose(f);
      Ev("time").t("us", op.t[1]).t("ms", std::to_string(ms)).t("out", st.str()).t("fout", fo).done();
    } else throw std::runtime_error("bad op " + o);
  }
}

int main(int argc, char** argv) {
  addConfig("format", run);
  return mainLoop(argc, argv);
}
