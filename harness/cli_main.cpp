// Driver for names, the command line, parameters and help; public API only.
#include "vh.h"
#include "capture.h"
#include "mathic/NameFactory.h"
#include "mathic/CliParser.h"
#include "mathic/Action.h"
#include "mathic/HelpAction.h"
#include "mathic/CliParameter.h"
#include "mathic/BoolParameter.h"
#include "mathic/IntegerParameter.h"
#include "mathic/StringParameter.h"
#include "mathic/error.h"

using namespace vh;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3000"; }

// ---- error classes
template<class F> std::string classify(F f) {
  try { f(); return "ok"; }
  catch (const mathic::UnknownNameException&) { return "unknown"; }
  catch (const mathic::AmbiguousNameException&) { return "ambiguous"; }
  catch (const mathic::MathicException&) { return "error"; }
}

// ---- names
struct Product { virtual ~Product() {} virtual int id() const = 0; };
static int g_made = 0;
template<int I> struct Prod : Product {
  Prod() { ++g_made; }
  virtual int id() const { return I; }
};
typedef mathic::NameFactory<Product> Factory;
const int MaxNames = 12;
template<int I> void regNth(Factory& f, int k, const std::string& name) {
  if (k == I) mathic::nameFactoryRegister<Prod<I> >(f, name);
  else regNth<I + 1>(f, k, name);
}
template<> void regNth<MaxNames>(Factory&, int, const std::string&) { throw std::runtime_error("too many names"); }

// ---- actions
struct ParDef { std::string name, kind, val, desc; };
struct ActDef { std::string name, shortDesc, desc; bool direct; std::vector<ParDef> pars; };
static std::vector<ActDef>& defs() { static std::vector<ActDef> d; return d; }

class TestAction : public mathic::Action {
public:
  explicit TestAction(int k): _k(k) {
    for (auto& p : defs()[k].pars) {
      if (p.kind == "bool") _pars.emplace_back(new mathic::BoolParameter(p.name, p.desc, p.val == "on"));
      else if (p.kind == "int") _pars.emplace_back(new mathic::IntegerParameter(p.name, p.desc, (unsigned)strtoul(p.val.c_str(), 0, 10)));
      else _pars.emplace_back(new mathic::StringParameter(p.name, p.desc, p.val));
    }
  }
  virtual void directOptions(std::vector<std::string> t, mathic::CliParser& parser) {
    if (defs()[_k].direct) given = t;
    else mathic::Action::directOptions(t, parser);
  }
  virtual void performAction() {}
  virtual const char* name() const { return defs()[_k].name.c_str(); }
  virtual const char* description() const { return defs()[_k].desc.c_str(); }
  virtual const char* shortDescription() const { return defs()[_k].shortDesc.c_str(); }
  virtual void pushBackParameters(std::vector<mathic::CliParameter*>& v) { for (auto& p : _pars) v.push_back(p.get()); }
  std::vector<std::string> given;
private:
  int _k;
  std::vector<std::unique_ptr<mathic::CliParameter> > _pars;
};
template<int I> struct Act : TestAction {
  Act(): TestAction(I) {}
  static const char* staticName() { return defs()[I].name.c_str(); }
};
const int MaxActs = 8;
template<int I> void regAct(mathic::CliParser& p, int k) {
  if (k == I) { if (I % 2) p.registerAction<Act<I> >(); else p.registerAction<Act<I> >(defs()[I].name); }
  else regAct<I + 1>(p, k);
}
template<> void regAct<MaxActs>(mathic::CliParser&, int) { throw std::runtime_error("too many actions"); }

static std::string codes(const std::string& s) {
  std::string r = "[";
  for (size_t k = 0; k < s.size(); ++k) { if (k) r += ","; r += std::to_string((int)(unsigned char)s[k]); }
  return r + "]";
}
static std::string codes(const std::vector<std::string>& v) {
  std::string r = "[";
  for (size_t k = 0; k < v.size(); ++k) { if (k) r += ","; r += codes(v[k]); }
  return r + "]";
}

static void run(const Script& s) {
  Factory factory("thing");
  std::map<int, std::string> regNames;
  int nreg = 0;
  defs().clear();
  std::unique_ptr<mathic::CliParser> parser(new mathic::CliParser());
  std::unique_ptr<mathic::BoolParameter> bp;
  std::unique_ptr<mathic::IntegerParameter> ip;
  std::unique_ptr<mathic::StringParameter> sp;
  std::string pkind;
  auto cur = [&]() -> mathic::CliParameter* {
    if (pkind == "bool") return bp.get();
    if (pkind == "int") return ip.get();
    return sp.get();
  };
  Ev("begin").done();
  size_t count = 0;
  for (auto& op : s.ops) {
    const std::string& o = op.name();
    ++count;
    if (o == "reg") {
      std::string n = unhex(op.t[1]);
      regNth<0>(factory, nreg, n);
      regNames[nreg++] = n;
      Ev("reg").t("n", n).done();
    } else if (o == "res") {
      std::string p = unhex(op.t[1]), n;
      std::string k = classify([&] { n = mathic::uniqueNameWithPrefix(factory, p); });
      Ev("res").t("p", p).s("k", k).t("n", n).done();
    } else if (o == "cwp" || o == "cre" || o == "nul") {
      std::string p = unhex(op.t[1]), n;
      g_made = 0;
      std::unique_ptr<Product> r;
      std::string k = classify([&] {
        if (o == "cwp") r = mathic::createWithPrefix(factory, p);
        else if (o == "cre") r = factory.create(p);
        else r = factory.createNullOnUnknown(p);
      });
      if (k == "ok" && !r) k = "none";
      if (r) n = regNames.at(r->id());
      Ev(o.c_str()).t("p", p).s("k", k).t("n", n).n("made", g_made).done();
    } else if (o == "lst") {
      std::string p = unhex(op.t[1]);
      std::vector<std::string> v;
      factory.namesWithPrefix(p, v);
      Ev("lst").t("p", p).j("out", codes(v)).done();
    } else if (o == "emp") {
      Ev("emp").b("r", factory.empty()).done();
    } else if (o == "par") {                 // par KIND HEXdefault
      pkind = op.t[1];
      std::string v = unhex(op.t[2]);
      if (pkind == "bool") bp.reset(new mathic::BoolParameter("p", "d", v == "on"));
      else if (pkind == "int") ip.reset(new mathic::IntegerParameter("p", "d", (unsigned)strtoul(v.c_str(), 0, 10)));
      else sp.reset(new mathic::StringParameter("p", "d", v));
      Ev("par").s("kind", pkind).t("v", v).done();
      Ev("get").t("v", cur()->valueAsString()).done();
    } else if (o == "arg") {
      if (!cur()) continue;
      std::string w = unhex(op.t[1]);
      std::string k = classify([&] { cur()->processArgument(w); });
      Ev("arg").t("w", w).s("k", k).t("v", cur()->valueAsString()).done();
    } else if (o == "set") {                 // set HEX: by setValue or by assignment
      if (!cur()) continue;
      std::string v = unhex(op.t[1]);
      bool assign = count % 2;
      if (pkind == "bool") { if (assign) *bp = (v == "on"); else bp->setValue(v == "on"); }
      else if (pkind == "int") { unsigned x = (unsigned)strtoul(v.c_str(), 0, 10); if (assign) *ip = x; else ip->setValue(x); }
      else { if (assign) *sp = v; else sp->setValue(v); }
      Ev("set").t("v", v).done();
    } else if (o == "get") {                 // every way to read the value
      if (!cur()) continue;
      Ev("get").t("v", cur()->valueAsString()).done();
      if (pkind == "bool") { Ev("get").t("v", bp->value() ? "on" : "off").done(); Ev("get").t("v", bool(*bp) ? "on" : "off").done(); }
      else if (pkind == "int") { Ev("get").t("v", std::to_string(ip->value())).done(); Ev("get").t("v", std::to_string((unsigned)*ip)).done(); }
      else { Ev("get").t("v", sp->value()).done(); }
    } else if (o == "act") {                 // act HEXname direct HEXshort HEXdesc (kind HEXname HEXdefault HEXdesc)*
      ActDef d;
      d.name = unhex(op.t[1]);
      d.direct = op.i(2) != 0;
      d.shortDesc = unhex(op.t[3]);
      d.desc = unhex(op.t[4]);
      std::string pj;
      for (size_t k = 5; k + 3 < op.size(); k += 4) {
        ParDef p;
        p.kind = op.t[k]; p.name = unhex(op.t[k + 1]); p.val = unhex(op.t[k + 2]); p.desc = unhex(op.t[k + 3]);
        d.pars.push_back(p);
        if (!pj.empty()) pj += ",";
        pj += "{\"name\":" + codes(p.name) + ",\"kind\":\"" + p.kind + "\",\"val\":" + codes(p.val) + ",\"desc\":" + codes(p.desc) + "}";
      }
      defs().push_back(d);
      regAct<0>(*parser, (int)defs().size() - 1);
      Ev("act").j("a", "{\"name\":" + codes(d.name) + ",\"direct\":" + (d.direct ? "true" : "false") + ",\"short\":" + codes(d.shortDesc)
                  + ",\"desc\":" + codes(d.desc) + ",\"pars\":[" + pj + "]}").done();
    } else if (o == "rhelp") {
      std::string pre = unhex(op.t[1]), post = unhex(op.t[2]);
      parser->registerHelpAction(pre, post);
      Ev("rhelp").t("pre", pre).t("post", post).done();
    } else if (o == "run") {
      std::vector<std::string> w;
      for (size_t k = 1; k < op.size(); ++k) w.push_back(unhex(op.t[k]));
      std::unique_ptr<mathic::Action> a;
      std::string k = classify([&] {
        bool nul = false;                    // argv cannot carry NUL characters
        for (auto& x : w) if (x.find('\0') != std::string::npos) nul = true;
        if (count % 3 == 0 && !nul) {
          std::vector<std::string> copy(w);
          std::vector<char*> argv;
          for (auto& x : copy) argv.push_back(&x[0]);
          argv.push_back(nullptr);
          a = parser->parse((int)w.size(), argv.data());
        } else a = parser->parse(w);
      });
      std::string name;
      std::vector<std::string> direct, vals;
      if (a) {
        name = a->name();
        if (a->isHelpAction() != (name == "help")) { Ev("fault").s("why", "isHelpAction").done(); return; }
        if (TestAction* t = dynamic_cast<TestAction*>(a.get())) direct = t->given;
        std::vector<mathic::CliParameter*> ps;
        a->pushBackParameters(ps);
        for (auto p : ps) vals.push_back(p->valueAsString());
      } else if (k == "ok") k = "none";
      Ev("parse").j("w", codes(w)).s("k", k).t("act", name).j("direct", codes(direct)).j("vals", codes(vals)).done();
    } else if (o == "acts") {
      std::vector<std::string> v;
      parser->pushBackRegisteredActionNames(v);
      Ev("acts").j("out", codes(v)).done();
    } else if (o == "mk") {
      std::string p = unhex(op.t[1]), n;
      std::string k = classify([&] { std::unique_ptr<mathic::Action> a = parser->createActionWithPrefix(p); n = a->name(); });
      Ev("mk").t("p", p).s("k", k).t("n", n).done();
    } else if (o == "help") {
      std::vector<std::string> w, line(1, "help");
      for (size_t k = 1; k < op.size(); ++k) { w.push_back(unhex(op.t[k])); line.push_back(w.back()); }
      std::string out, k;
      {
        Capture cap(2);
        k = classify([&] { std::unique_ptr<mathic::Action> a = parser->parse(line); a->performAction(); });
        out = cap.finish();
      }
      Ev("help").j("w", codes(w)).s("k", k).t("out", k == "ok" ? out : "").done();
    } else throw std::runtime_error("bad op " + o);
  }
}

int main(int argc, char** argv) {
  addConfig("cli", run);
  return mainLoop(argc, argv);
}
