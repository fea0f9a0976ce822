// Persistent driver over the public library interface of scram.
// Requests: lines "key=value", ended by a line with a single dot.
// Responses: one line of JSON per request.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <typeinfo>
#include <vector>

#include <unistd.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

#include <boost/core/demangle.hpp>
#include <boost/exception/all.hpp>
#include <libxml/parser.h>
#include <libxml/relaxng.h>
#include <libxml/xmlerror.h>

#include "src/alignment.h"
#include "src/ccf_group.h"
#include "src/error.h"
#include "src/event.h"
#include "src/event_tree_analysis.h"
#include "src/expression.h"
#include "src/expression/constant.h"
#include "src/expression/random_deviate.h"
#include "src/fault_tree.h"
#include "src/initializer.h"
#include "src/model.h"
#include "src/parameter.h"
#include "src/project.h"
#include "src/reporter.h"
#include "src/risk_analysis.h"
#include "src/serialization.h"
#include "src/settings.h"

#include "disturb.h"

using namespace scram;

namespace {

struct Json {
  std::string s;
  void str(std::string_view v) {
    s += '"';
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') {
        s += '\\';
        s += c;
      } else if (c < 0x20) {
        char b[8];
        std::snprintf(b, sizeof b, "\\u%04x", c);
        s += b;
      } else {
        s += c;
      }
    }
    s += '"';
  }
  void num(double d) {
    if (std::isnan(d)) {
      s += "NaN";
    } else if (std::isinf(d)) {
      s += d > 0 ? "Infinity" : "-Infinity";
    } else {
      char b[40];
      std::snprintf(b, sizeof b, "%.17g", d);
      s += b;
    }
  }
  void integer(long long i) { s += std::to_string(i); }
  void boolean(bool b) { s += b ? "true" : "false"; }
  void key(std::string_view k) {
    sep();
    str(k);
    s += ':';
  }
  void sep() {
    if (!s.empty() && s.back() != '{' && s.back() != '[' && s.back() != ':')
      s += ',';
  }
  void open(char c) { s += c; }
  void close(char c) { s += c; }
};

using Request = std::multimap<std::string, std::string>;

std::string get(const Request& r, const std::string& k,
                const std::string& d = "") {
  auto it = r.find(k);
  return it == r.end() ? d : it->second;
}

void apply(core::Settings* st, const std::string& key, const std::string& v) {
  auto b = [&v] { return v == "1" || v == "true"; };
  auto i = [&v] { return std::stoi(v); };
  auto d = [&v] { return std::stod(v); };
  if (key == "algorithm") st->algorithm(std::string_view(v));
  else if (key == "approximation") st->approximation(std::string_view(v));
  else if (key == "prime_implicants") st->prime_implicants(b());
  else if (key == "limit_order") st->limit_order(i());
  else if (key == "cut_off") st->cut_off(d());
  else if (key == "num_trials") st->num_trials(i());
  else if (key == "num_quantiles") st->num_quantiles(i());
  else if (key == "num_bins") st->num_bins(i());
  else if (key == "seed") st->seed(i());
  else if (key == "mission_time") st->mission_time(d());
  else if (key == "time_step") st->time_step(d());
  else if (key == "probability") st->probability_analysis(b());
  else if (key == "importance") st->importance_analysis(b());
  else if (key == "uncertainty") st->uncertainty_analysis(b());
  else if (key == "ccf") st->ccf_analysis(b());
  else if (key == "sil") st->safety_integrity_levels(b());
  else { std::cerr << "bad setting " << key << std::endl; std::abort(); }
}

void put_settings(Json* j, const core::Settings& st) {
  j->open('{');
  j->key("algorithm"); j->str(core::kAlgorithmToString[(int)st.algorithm()]);
  j->key("approximation");
  j->str(core::kApproximationToString[(int)st.approximation()]);
  j->key("prime_implicants"); j->boolean(st.prime_implicants());
  j->key("limit_order"); j->integer(st.limit_order());
  j->key("cut_off"); j->num(st.cut_off());
  j->key("num_trials"); j->integer(st.num_trials());
  j->key("num_quantiles"); j->integer(st.num_quantiles());
  j->key("num_bins"); j->integer(st.num_bins());
  j->key("seed"); j->integer(st.seed());
  j->key("mission_time"); j->num(st.mission_time());
  j->key("time_step"); j->num(st.time_step());
  j->key("probability"); j->boolean(st.probability_analysis());
  j->key("importance"); j->boolean(st.importance_analysis());
  j->key("uncertainty"); j->boolean(st.uncertainty_analysis());
  j->key("ccf"); j->boolean(st.ccf_analysis());
  j->key("sil"); j->boolean(st.safety_integrity_levels());
  j->close('}');
}

void put_expr(Json* j, mef::Expression* e, int samples) {
  j->key("value"); j->num(e->value());
  mef::Interval in = e->interval();
  j->key("interval");
  j->open('[');
  j->num(in.lower()); j->sep(); j->num(in.upper()); j->sep();
  j->integer(in.bounds().bits());
  j->close(']');
  j->key("deviate"); j->boolean(e->IsDeviate());
  if (samples > 0) {
    j->key("samples");
    j->open('[');
    for (int i = 0; i < samples; ++i) {
      e->Reset();
      j->sep();
      j->num(e->Sample());
    }
    e->Reset();
    j->close(']');
  }
}

void put_tree(Json* j, const mef::Expression* e) {
  j->open('[');
  if (auto* p = dynamic_cast<const mef::ConstantExpression*>(e)) {
    j->str("constant"); j->sep();
    j->num(const_cast<mef::ConstantExpression*>(p)->value());
  } else if (auto* p = dynamic_cast<const mef::Parameter*>(e)) {
    j->str("parameter"); j->sep(); j->str(p->id());
  } else if (dynamic_cast<const mef::MissionTime*>(e)) {
    j->str("mission time");
  } else {
    std::string n = boost::core::demangle(typeid(*e).name());
    j->str(n);
    for (const mef::Expression* a : e->args()) { j->sep(); put_tree(j, a); }
  }
  j->close(']');
}

void put_meta(Json* j, const mef::Element& e) {
  j->open('{');
  j->key("name"); j->str(e.name());
  j->key("label"); j->str(e.label());
  j->key("attributes");
  j->open('[');
  for (const mef::Attribute& a : e.attributes()) {
    j->sep();
    j->open('['); j->str(a.name()); j->sep(); j->str(a.value()); j->sep();
    j->str(a.type()); j->close(']');
  }
  j->close(']');
}

void put_container(Json* j, const mef::Component& c) {
  put_meta(j, c);
  auto names = [j](const char* k, const auto& table) {
    std::set<std::string> s;
    for (const auto& e : table) s.insert(e.name());
    j->key(k);
    j->open('[');
    for (const std::string& n : s) { j->sep(); j->str(n); }
    j->close(']');
  };
  names("gates", c.gates());
  names("basic_events", c.basic_events());
  names("house_events", c.house_events());
  names("parameters", c.parameters());
  names("ccf_groups", c.ccf_groups());
  j->key("components");
  j->open('{');
  for (const mef::Component& x : c.components()) {
    j->key(x.name());
    put_container(j, x);
  }
  j->close('}');
  j->close('}');
}

// Names, labels, attributes, containers and expressions.
void put_structure(Json* j, mef::Model* m) {
  j->open('{');
  j->key("model");
  put_meta(j, *m);
  j->key("default"); j->boolean(m->HasDefaultName());
  j->close('}');
  auto all = [j](const char* k, auto table) {
    j->key(k);
    j->open('{');
    for (auto& e : table) {
      j->key(e.id());
      put_meta(j, e);
      j->key("role");
      j->str(e.role() == mef::RoleSpecifier::kPublic ? "public" : "private");
      if constexpr (std::is_same_v<std::decay_t<decltype(e)>, mef::BasicEvent>) {
        j->key("expression");
        if (e.HasExpression()) put_tree(j, &e.expression());
        else j->str("");
      } else if constexpr (std::is_same_v<std::decay_t<decltype(e)>, mef::Parameter>) {
        j->key("unit"); j->str(mef::kUnitsToString[e.unit()]);
        j->key("expression"); put_tree(j, e.args().front());
      }
      j->close('}');
    }
    j->close('}');
  };
  all("gates", m->gates());
  all("basic_events", m->basic_events());
  all("house_events", m->house_events());
  all("parameters", m->parameters());
  j->key("fault_trees");
  j->open('{');
  for (const mef::FaultTree& f : m->fault_trees()) {
    j->key(f.name());
    put_container(j, f);
  }
  j->close('}');
  j->close('}');
}

void put_dump(Json* j, mef::Model* m, int samples) {
  j->open('{');
  j->key("mission_time"); j->num(m->mission_time().value());
  j->key("basic_events");
  j->open('{');
  for (mef::BasicEvent& e : m->table<mef::BasicEvent>()) {
    j->key(e.id());
    j->open('{');
    j->key("usage"); j->boolean(e.usage());
    if (e.HasExpression()) put_expr(j, &e.expression(), samples);
    j->close('}');
  }
  j->close('}');
  j->key("parameters");
  j->open('{');
  for (mef::Parameter& e : m->table<mef::Parameter>()) {
    j->key(e.id());
    j->open('{');
    j->key("usage"); j->boolean(e.usage());
    put_expr(j, &e, samples);
    j->close('}');
  }
  j->close('}');
  j->key("house_events");
  j->open('{');
  for (const mef::HouseEvent& e : m->table<mef::HouseEvent>()) {
    j->key(e.id());
    j->boolean(e.state());
  }
  j->close('}');
  j->key("gates");
  j->open('{');
  for (const mef::Gate& g : m->table<mef::Gate>()) {
    j->key(g.id());
    j->open('[');
    const mef::Formula& f = g.formula();
    j->str(mef::kConnectiveToString[f.connective()]);
    j->sep(); j->integer(f.min_number().value_or(-1));
    j->sep(); j->integer(f.max_number().value_or(-1));
    for (const mef::Formula::Arg& a : f.args()) {
      j->sep();
      const mef::Event* ev = nullptr;
      const char* t = "";
      if (auto* p = std::get_if<mef::Gate*>(&a.event)) ev = *p, t = "g:";
      else if (auto* p = std::get_if<mef::BasicEvent*>(&a.event)) ev = *p, t = "b:";
      else if (auto* p = std::get_if<mef::HouseEvent*>(&a.event)) ev = *p, t = "h:";
      j->str(std::string(a.complement ? "~" : "") + t + ev->id());
    }
    j->close(']');
  }
  j->close('}');
  j->close('}');
}

void put_context(Json* j, const std::optional<core::RiskAnalysis::Context>& c) {
  if (c) {
    j->key("alignment"); j->str(c->alignment.name());
    j->key("phase"); j->str(c->phase.name());
  }
}

void put_results(Json* j, const core::RiskAnalysis& an, const Request& rq) {
  j->key("results");
  j->open('[');
  for (const auto& r : an.results()) {
    j->sep();
    j->open('{');
    if (auto* g = std::get_if<const mef::Gate*>(&r.id.target)) {
      j->key("gate"); j->str((*g)->id());
    } else {
      auto& pr = std::get<std::pair<const mef::InitiatingEvent&,
                                    const mef::Sequence&>>(r.id.target);
      j->key("init"); j->str(pr.first.name());
      j->key("seq"); j->str(pr.second.name());
    }
    put_context(j, r.id.context);
    if (r.fault_tree_analysis) {
      const auto& fta = *r.fault_tree_analysis;
      const auto& pc = fta.products();
      j->key("fta_warnings"); j->str(fta.warnings());
      j->key("n"); j->integer(pc.size());
      j->key("distribution");
      j->open('[');
      for (int d : pc.distribution()) { j->sep(); j->integer(d); }
      j->close(']');
      j->key("events");
      j->open('[');
      std::set<std::string> ids;  // The tool's own set has no order.
      for (const auto* e : pc.product_events()) ids.insert(e->id());
      for (const std::string& id : ids) { j->sep(); j->str(id); }
      j->close(']');
      bool want_p = r.probability_analysis != nullptr;
      j->key("products");
      j->open('[');
      long cnt = 0, cap = std::stol(get(rq, "max_products", "100000"));
      for (const core::Product& p : pc) {
        if (++cnt > cap) break;
        j->sep();
        j->open('[');
        for (const core::Literal& l : p) {
          j->sep();
          j->str((l.complement ? "~" : "") + l.event.id());
        }
        j->close(']');
      }
      j->close(']');
      if (want_p) {
        j->key("pp");
        j->open('[');
        cnt = 0;
        for (const core::Product& p : pc) {
          if (++cnt > cap) break;
          j->sep();
          j->num(p.p());
        }
        j->close(']');
      }
    }
    if (r.probability_analysis) {
      const auto& pa = *r.probability_analysis;
      j->key("pa_warnings"); j->str(pa.warnings());
      j->key("p"); j->num(pa.p_total());
      j->key("p_time");
      j->open('[');
      for (auto& [p, t] : pa.p_time()) {
        j->sep(); j->open('['); j->num(p); j->sep(); j->num(t); j->close(']');
      }
      j->close(']');
      if (pa.settings().safety_integrity_levels()) {
        const auto& sil = pa.sil();
        j->key("pfd_avg"); j->num(sil.pfd_avg);
        j->key("pfh_avg"); j->num(sil.pfh_avg);
        j->key("pfd");
        j->open('[');
        for (auto& [a, b] : sil.pfd_fractions) {
          j->sep(); j->open('['); j->num(a); j->sep(); j->num(b); j->close(']');
        }
        j->close(']');
        j->key("pfh");
        j->open('[');
        for (auto& [a, b] : sil.pfh_fractions) {
          j->sep(); j->open('['); j->num(a); j->sep(); j->num(b); j->close(']');
        }
        j->close(']');
      }
    }
    if (r.importance_analysis) {
      j->key("imp_warnings"); j->str(r.importance_analysis->warnings());
      j->key("importance");
      j->open('{');
      for (const auto& rec : r.importance_analysis->importance()) {
        j->key(rec.event.id());
        j->open('[');
        j->integer(rec.factors.occurrence);
        for (double d : {rec.factors.mif, rec.factors.cif, rec.factors.dif,
                         rec.factors.raw, rec.factors.rrw}) {
          j->sep(); j->num(d);
        }
        j->close(']');
      }
      j->close('}');
      j->key("importance_len");
      j->integer(r.importance_analysis->importance().size());
    }
    if (r.uncertainty_analysis) {
      const auto& u = *r.uncertainty_analysis;
      j->key("unc");
      j->open('{');
      j->key("warnings"); j->str(u.warnings());
      j->key("mean"); j->num(u.mean());
      j->key("sigma"); j->num(u.sigma());
      j->key("ef"); j->num(u.error_factor());
      j->key("ci");
      j->open('['); j->num(u.confidence_interval().first); j->sep();
      j->num(u.confidence_interval().second); j->close(']');
      j->key("hist");
      j->open('[');
      for (auto& [b, v] : u.distribution()) {
        j->sep(); j->open('['); j->num(b); j->sep(); j->num(v); j->close(']');
      }
      j->close(']');
      j->key("quant");
      j->open('[');
      for (double q : u.quantiles()) { j->sep(); j->num(q); }
      j->close(']');
      j->close('}');
    }
    j->close('}');
  }
  j->close(']');
  j->key("eta");
  j->open('[');
  for (const auto& e : an.event_tree_results()) {
    j->sep();
    j->open('{');
    j->key("init"); j->str(e.initiating_event.name());
    put_context(j, e.context);
    j->key("seqs");
    j->open('[');
    for (const auto& s : e.event_tree_analysis->sequences()) {
      j->sep();
      j->open('{');
      j->key("name"); j->str(s.sequence.name());
      j->key("p"); j->num(s.p_sequence);
      j->key("expr_only"); j->boolean(s.is_expression_only);
      j->close('}');
    }
    j->close(']');
    j->close('}');
  }
  j->close(']');
}

void handle(const Request& rq, Json* j) {
  std::string stage = "settings";
  try {
    core::Settings st;
    std::vector<std::string> files;
    if (rq.count("project")) {
      stage = "project";
      Project prj(get(rq, "project"));
      st = prj.settings();
      files = prj.input_files();
      j->key("project_files");
      j->open('[');
      for (auto& f : files) { j->sep(); j->str(f); }
      j->close(']');
    }
    stage = "settings";
    auto [sb, se] = rq.equal_range("set");
    for (auto it = sb; it != se; ++it) {
      auto pos = it->second.find(':');
      apply(&st, it->second.substr(0, pos), it->second.substr(pos + 1));
    }
    auto [fb, fe] = rq.equal_range("file");
    for (auto it = fb; it != fe; ++it) files.push_back(it->second);
    if (get(rq, "show_settings") == "1") {
      j->key("settings");
      put_settings(j, st);
    }
    if (get(rq, "stop") == "settings") {
      j->key("ok"); j->boolean(true);
      return;
    }
    stage = "load";
    std::unique_ptr<mef::Model> model =
        rq.count("extern")
            ? mef::Initializer(files, st, get(rq, "extern") == "1").model()
            : mef::Initializer(files, st).model();  // The default.
    int samples = std::stoi(get(rq, "samples", "0"));
    if (get(rq, "dump") == "1") {
      stage = "dump";
      if (samples) mef::RandomDeviate::seed(st.seed());
      j->key("dump");
      put_dump(j, model.get(), samples);
    }
    if (get(rq, "structure") == "1") {
      stage = "dump";
      j->key("structure");
      put_structure(j, model.get());
    }
    if (rq.count("joint")) {
      // Joint samples of events (ids; one order per "order" field).
      stage = "joint";
      j->key("joint");
      j->open('[');
      auto [ob, oe] = rq.equal_range("order");
      for (auto it = ob; it != oe; ++it) {
        std::vector<mef::Expression*> ex;
        for (size_t b = 0; b < it->second.size();) {
          size_t e = it->second.find(' ', b);
          if (e == std::string::npos) e = it->second.size();
          ex.push_back(&model->table<mef::BasicEvent>()
                            .find(it->second.substr(b, e - b))->expression());
          b = e + 1;
        }
        for (mef::Expression* e : ex) e->Reset();
        mef::RandomDeviate::seed(st.seed());
        j->sep();
        j->open('[');
        for (int i = 0, n = std::stoi(get(rq, "joint")); i < n; ++i) {
          for (mef::Expression* e : ex) e->Reset();
          for (mef::Expression* e : ex) { j->sep(); j->num(e->Sample()); }
        }
        for (mef::Expression* e : ex) e->Reset();
        j->close(']');
      }
      j->close(']');
    }
    if (rq.count("serialize")) {
      stage = "serialize";
      mef::Serialize(*model, get(rq, "serialize"));
    }
    if (get(rq, "analyze", "1") == "1") {
      int repeat = std::stoi(get(rq, "repeat", "1"));
      for (int i = 0; i < repeat; ++i) {
        stage = "analyze";
        core::RiskAnalysis an(model.get(), st);
        an.Analyze();
        stage = "results";
        j->key(i ? "again" : "run");
        j->open('{');
        put_results(j, an, rq);
        j->close('}');
        if (rq.count("report") && !i) {
          stage = "report";
          Reporter().Report(an, get(rq, "report"),
                            get(rq, "indent", "1") == "1");
        }
      }
      if (get(rq, "dump_after") == "1") {
        j->key("dump_after");
        put_dump(j, model.get(), 0);
      }
    }
    j->key("ok"); j->boolean(true);
  } catch (const scram::Error& e) {
    j->key("error");
    j->str(boost::core::demangle(typeid(e).name()));
    j->key("kind"); j->str(dynamic_cast<const scram::LogicError*>(&e) ? "logic" : "user");
    j->key("what"); j->str(e.what());
    j->key("stage"); j->str(stage);
  } catch (const std::exception& e) {
    j->key("error");
    j->str(boost::core::demangle(typeid(e).name()));
    j->key("kind"); j->str("std");
    j->key("what"); j->str(e.what());
    j->key("stage"); j->str(stage);
  } catch (...) {
    j->key("error"); j->str("unknown");
    j->key("kind"); j->str("std");
    j->key("stage"); j->str(stage);
  }
}

void xml_silence(void*, const char*, ...) {}

void keep_error(void* out, const xmlError* e) {
  auto* s = static_cast<std::string*>(out);
  if (e && e->message && s->size() < 2000)
    *s += "line " + std::to_string(e->line) + ": " + e->message;
}

// Well-formedness and validity of a file by the XML library alone.
void validate(const std::string& file, const std::string& rng, Json* j) {
  static std::map<std::string, xmlRelaxNGPtr> schemas;
  xmlRelaxNGPtr& schema = schemas[rng];
  if (!schema) {
    xmlRelaxNGParserCtxtPtr pc = xmlRelaxNGNewParserCtxt(rng.c_str());
    schema = xmlRelaxNGParse(pc);
    xmlRelaxNGFreeParserCtxt(pc);
  }
  std::string errors;
  bool valid = false;
  if (!schema) {
    errors = "no schema " + rng;
  } else {
    xmlSetStructuredErrorFunc(&errors, (xmlStructuredErrorFunc)keep_error);
    xmlDocPtr doc = xmlReadFile(file.c_str(), nullptr, XML_PARSE_NONET | XML_PARSE_HUGE);
    if (doc) {
      xmlRelaxNGValidCtxtPtr vc = xmlRelaxNGNewValidCtxt(schema);
      xmlRelaxNGSetValidStructuredErrors(vc, (xmlStructuredErrorFunc)keep_error, &errors);
      valid = xmlRelaxNGValidateDoc(vc, doc) == 0;
      xmlRelaxNGFreeValidCtxt(vc);
      xmlFreeDoc(doc);
    } else {
      errors = "not well-formed: " + errors;
    }
    xmlSetStructuredErrorFunc(nullptr, nullptr);
  }
  xmlResetLastError();
  j->key("valid"); j->boolean(valid);
  j->key("valid_errors"); j->str(errors);
}

}  // namespace

int main() {
  LIBXML_TEST_VERSION
  xmlInitParser();
  xmlSetGenericErrorFunc(nullptr, xml_silence);
  // Keep the reply channel apart from anything the library prints.
  int out = dup(1);
  dup2(2, 1);
  std::string line;
  Request rq;
  while (std::getline(std::cin, line)) {
    if (line != ".") {
      auto pos = line.find('=');
      rq.emplace(line.substr(0, pos), line.substr(pos + 1));
      continue;
    }
    Json j;
    // "session=begin": a forked child handles all requests until
    // "session=end"; "heap=N" disturbs its heap.
    if (get(rq, "session") == "end") _exit(0);
    if (get(rq, "session") == "begin") {
      pid_t pid = fork();
      if (pid) {
        int st = 0;
        waitpid(pid, &st, 0);
        std::string s = "{\"session_end\":" + std::to_string(
            WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)) + "}\n";
        if (write(out, s.data(), s.size()) < 0) return 3;
        rq.clear();
        continue;
      }
      unsigned long seed = std::stoul(get(rq, "heap", "0"));
      if (seed) disturb(seed);
    }
    j.open('{');
    if (get(rq, "session") == "begin") {
      j.key("ok"); j.boolean(true);
      j.close('}');
      j.s += '\n';
      if (write(out, j.s.data(), j.s.size()) < 0) return 3;
      rq.clear();
      continue;
    }
    if (rq.count("alarm")) alarm(std::stoi(get(rq, "alarm")));
    // "fsize=N": writing beyond N bytes of a file fails.
    if (rq.count("fsize")) {
      signal(SIGXFSZ, SIG_IGN);
      rlimit lim{(rlim_t)std::stol(get(rq, "fsize")), RLIM_INFINITY};
      setrlimit(RLIMIT_FSIZE, &lim);
    }
    if (get(rq, "stop") != "validate") handle(rq, &j);
    if (rq.count("fsize")) {
      rlimit lim{RLIM_INFINITY, RLIM_INFINITY};
      setrlimit(RLIMIT_FSIZE, &lim);
    }
    if (rq.count("validate"))
      validate(get(rq, "validate"), get(rq, "schema"), &j);
    alarm(0);
    j.close('}');
    j.s += '\n';
    const char* p = j.s.data();
    size_t left = j.s.size();
    while (left) {
      ssize_t w = write(out, p, left);
      if (w <= 0) return 3;
      p += w;
      left -= w;
    }
    rq.clear();
  }
  return 0;
}
