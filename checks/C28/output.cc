// pbt:
#include "density.hpp"

using namespace albatross;

namespace {

// A parameter store with every kind of prior, and values inside the bounds.
ParameterStore gen_store(pbt::Case &c) {
  ParameterStore store;
  const std::size_t n = 1 + c.size(0, 6);
  while (store.size() < n) {
    std::string name = c.ident(6);
    while (store.count(name))
      name += "x";
    Parameter p;
    const double tiny = c.logreal(1e-14, 1e-2), big = c.logreal(1, 1e12);
    switch (c.i(0, 8)) {
    case 0:
      p = {c.sym(10), UninformativePrior()};
      break;
    case 1:
      p = {c.sym(10), FixedPrior()};
      break;
    case 2:
      p = {c.coin() ? tiny : big, PositivePrior()};
      break;
    case 3:
      p = {c.chance(1, 4) ? 0. : tiny, NonNegativePrior()};
      break;
    case 4:
      p = {-3 + c.real(0, 1) * 10, UniformPrior(-3, 7)};
      break;
    case 5:
      p = {std::exp(c.real(std::log(1e-9), std::log(1e6))),
           LogScaleUniformPrior(1e-10, 1e7)};
      break;
    case 6:
      p = {c.sym(1e-8), GaussianPrior(0, 1e-8)};
      break;
    case 7:
      p = {tiny, LogNormalPrior(0, 2)};
      break;
    default:
      p = {c.real(0, 20), PositiveGaussianPrior(1, 2)};
      break;
    }
    store[name] = p;
  }
  c.note() << "store: ";
  c.note().precision(17);
  for (const auto &kv : store)
    c.note() << kv.first << "=" << kv.second.value << " "
             << kv.second.prior.get_name() << "; ";
  c.sync();
  return store;
}

// An ensemble of tunable values within (or at) the bounds.
EnsembleSamplerState gen_ensemble(pbt::Case &c, const ParameterStore &store,
                                  std::size_t n) {
  EnsembleSamplerState out;
  for (std::size_t i = 0; i < n; ++i) {
    SamplerState s;
    for (const auto &kv : store) {
      const auto &p = kv.second;
      if (p.is_fixed())
        continue;
      const bool log_scale = p.prior.is_log_scale();
      double lo = p.prior.lower_bound(), hi = p.prior.upper_bound();
      double v = 0;
      const double at = c.real(0, 1);
      if (log_scale) {
        lo = std::log(lo), hi = std::log(hi);
        v = lo + (hi - lo) * at;
      } else if (std::isfinite(lo) && std::isfinite(hi)) {
        v = lo + (hi - lo) * at;
      } else if (std::isfinite(lo)) {
        v = lo + std::exp(-30 + 60 * at);
      } else {
        v = (c.coin() ? -1 : 1) * std::exp(-30 + 60 * at);
      }
      if (c.chance(1, 12) && std::isfinite(lo))
        v = lo;
      if (c.chance(1, 12) && std::isfinite(hi))
        v = hi;
      s.params.push_back(v);
    }
    s.log_prob = c.pick<double>({1., -1., 1e-7}) * c.logreal(1e-3, 1e6);
    s.accepted = c.coin();
    out.push_back(s);
  }
  return out;
}

std::vector<std::vector<std::string>> parse_csv(const std::string &text,
                                                pbt::Case &c) {
  std::vector<std::vector<std::string>> rows;
  std::string line;
  std::istringstream in(text);
  c.check(text.empty() || text.back() == '\n', "the last row is terminated");
  while (std::getline(in, line)) {
    std::vector<std::string> row(1);
    for (const char ch : line) {
      if (ch == ',')
        row.emplace_back();
      else
        row.back().push_back(ch);
    }
    rows.push_back(row);
  }
  return rows;
}

double natural(const Parameter &p, double v) {
  if (p.prior.is_log_scale())
    v = std::exp(v);
  return std::min(p.prior.upper_bound(), std::max(p.prior.lower_bound(), v));
}

} // namespace

PBT_CHECK(samples_read_back_from_csv, 40000, 300000,
          "parameters with every kind of prior (values from 1e-14 to 1e12, "
          "fixed ones included) and 0-4 iterations of 1-8 walkers written by "
          "CsvWritingCallback: one header, one row per walker and iteration, "
          "in order, each with its own iteration, index, log probability and "
          "parameters reading back to 1e-13; initial_params_from_csv gives "
          "the walkers of the last iteration; non-trivial: a parameter that "
          "is free, and two or more iterations.") {
  const auto store = gen_store(c);
  const std::size_t walkers = 1 + c.size(0, 7);
  const std::size_t iterations = c.size(0, 4);
  c.show("walkers", walkers).show("iterations", iterations);
  auto oss = std::make_shared<std::ostringstream>();
  std::shared_ptr<std::ostream> os = oss;
  CsvWritingCallback cb(store, os);
  std::vector<EnsembleSamplerState> history;
  for (std::size_t i = 0; i <= iterations; ++i) {
    history.push_back(gen_ensemble(c, store, walkers));
    cb(i, history.back());
  }
  const auto rows = parse_csv(oss->str(), c);
  c.eq(rows.size(), 1 + (iterations + 1) * walkers, "number of rows");
  const auto &header = rows[0];
  c.eq(header.size(), 3 + store.size(), "number of columns");
  const std::set<std::string> distinct(header.begin(), header.end());
  c.eq(distinct.size(), header.size(), "distinct columns");
  c.check(header[0] == "iteration" && header[1] == "log_probability" &&
              header[2] == "ensemble_index",
          "leading columns");
  std::size_t r = 1;
  for (std::size_t i = 0; i <= iterations; ++i)
    for (std::size_t w = 0; w < walkers; ++w, ++r) {
      c.eq(rows[r].size(), header.size(), "cells in a row");
      c.eq(rows[r][0], std::to_string(i), "iteration");
      c.eq(rows[r][2], std::to_string(w), "ensemble index");
      c.near(std::stod(rows[r][1]), history[i][w].log_prob, 1e-13, 0,
             "log probability");
      for (std::size_t k = 3; k < header.size(); ++k) {
        c.check(store.count(header[k]) == 1, "column " + header[k]);
        const auto &p = store.at(header[k]);
        double expected = p.value;
        if (!p.is_fixed()) {
          std::size_t at = 0;
          for (const auto &kv : store) {
            if (kv.first == header[k])
              break;
            at += !kv.second.is_fixed();
          }
          expected = natural(p, history[i][w].params[at]);
        }
        c.near(std::stod(rows[r][k]), expected, 1e-13, 0,
               "iteration " + std::to_string(i) + " walker " +
                   std::to_string(w) + " " + header[k]);
      }
    }

  // a later run carries on from the last iteration
  std::istringstream in(oss->str());
  const auto resumed = initial_params_from_csv(store, in);
  c.eq(resumed.size(), walkers, "walkers of the last iteration");
  for (std::size_t w = 0; w < walkers; ++w) {
    const auto &want = history.back()[w].params;
    c.eq(resumed[w].size(), want.size(), "resumed dimension");
    std::size_t at = 0;
    for (const auto &kv : store)
      if (!kv.second.is_fixed()) {
        c.near(resumed[w][at], want[at], 1e-12,
               kv.second.prior.is_log_scale() ? 1e-12 : 0,
               "resumed walker " + std::to_string(w) + " " + kv.first);
        ++at;
      }
  }
  std::istringstream again(oss->str());
  const auto maps = initial_params_from_csv(again);
  c.eq(maps.size(), walkers, "maps of the last iteration");
  for (std::size_t w = 0; w < walkers; ++w) {
    c.eq(maps[w].size(), store.size(), "parameters in the map");
    for (std::size_t k = 3; k < header.size(); ++k)
      c.eq(maps[w].at(header[k]),
           std::stod(rows[rows.size() - walkers + w][k]), "map entry");
  }
  c.label_if(iterations == 0, "only the initial state");
  c.nontrivial(iterations >= 1 && !history[0][0].params.empty());
}

PBT_CHECK(resumed_values_are_inside_the_bounds, 60000, 400000,
          "hand written sample files with values inside, at and outside of "
          "the bounds, rows of several iterations of different sizes: only "
          "the last iteration is used, values are moved to the closest bound, "
          "fixed parameters do not show up; non-trivial: a value was outside "
          "of its bounds.") {
  const auto store = gen_store(c);
  std::ostringstream text;
  text.precision(17);
  text << "iteration,log_probability,ensemble_index";
  auto order = c.permutation(store.size());
  std::vector<std::string> names;
  for (const auto &kv : store)
    names.push_back(kv.first);
  for (const auto k : order)
    text << "," << names[k];
  text << "\n";
  const std::size_t iterations = 1 + c.size(0, 3);
  const std::size_t first = c.coin() ? 0 : 1 + c.size(0, 40);
  std::vector<std::map<std::string, double>> last;
  bool outside = false;
  for (std::size_t i = 0; i < iterations; ++i) {
    last.clear();
    const std::size_t walkers = 1 + c.size(0, 5);
    for (std::size_t w = 0; w < walkers; ++w) {
      text << first + i << "," << c.sym(100) << "," << w;
      std::map<std::string, double> row;
      for (const auto k : order) {
        const double v =
            c.coin() ? store.at(names[k]).value
                     : (c.coin() ? -1 : 1) * c.logreal(1e-12, 1e13);
        row[names[k]] = v;
        text << "," << v;
        outside = outside || (v < store.at(names[k]).prior.lower_bound()) ||
                  (v > store.at(names[k]).prior.upper_bound());
      }
      text << "\n";
      last.push_back(row);
    }
  }
  c.note() << text.str();
  c.sync();
  std::istringstream in(text.str());
  const auto got = initial_params_from_csv(store, in);
  c.eq(got.size(), last.size(), "walkers of the last iteration");
  for (std::size_t w = 0; w < last.size(); ++w) {
    std::size_t at = 0;
    for (const auto &kv : store) {
      const auto &p = kv.second;
      if (p.is_fixed())
        continue;
      double v = last[w].at(kv.first);
      v = std::min(p.prior.upper_bound(), std::max(p.prior.lower_bound(), v));
      c.check(at < got[w].size(), "dimension");
      if (p.prior.is_log_scale())
        c.near(got[w][at], std::log(v), 1e-13, 1e-13, kv.first);
      else
        c.eq(got[w][at], v, kv.first);
      ++at;
    }
    c.eq(got[w].size(), at, "dimension");
  }
  c.nontrivial(outside);
}

PBT_CHECK(best_parameters_are_tracked, 60000, 400000,
          "0-8 iterations of 1-8 walkers given to the maximum likelihood "
          "callback (ties and -inf included): it holds the largest log "
          "probability and the parameters of the first walker that had it, "
          "and reports each improvement once; non-trivial: three or more "
          "improvements.") {
  const auto store = gen_store(c);
  auto oss = std::make_shared<std::ostringstream>();
  std::shared_ptr<std::ostream> os = oss;
  MaximumLikelihoodTrackingCallback cb(store, os);
  const std::size_t iterations = c.size(0, 8);
  double best = -HUGE_VAL;
  std::vector<double> best_params;
  std::size_t improvements = 0;
  std::size_t best_iteration = 0;
  for (std::size_t i = 0; i < iterations; ++i) {
    auto s = gen_ensemble(c, store, 1 + c.size(0, 7));
    for (auto &w : s) {
      w.log_prob = c.chance(1, 10) ? -HUGE_VAL
                                   : static_cast<double>(c.i(0, 40)) - 20;
      if (w.log_prob > best) {
        best = w.log_prob;
        best_params = w.params;
        best_iteration = i;
        ++improvements;
      }
    }
    cb(i, s);
  }
  c.eq(cb.max_ll, best, "largest log probability");
  std::size_t at = 0;
  c.eq(cb.param_store.size(), store.size(), "number of parameters");
  for (const auto &kv : store) {
    const auto &p = cb.param_store.at(kv.first);
    c.check(p.prior == kv.second.prior, "prior of " + kv.first);
    if (p.is_fixed() || improvements == 0)
      c.eq(p.value, kv.second.value, "value of " + kv.first);
    else
      c.near(p.value, natural(p, best_params[at]), 1e-14, 0,
             "value of " + kv.first);
    at += !p.is_fixed();
  }
  const std::string text = oss->str();
  std::size_t n = 0;
  for (std::size_t pos = text.find("Iteration: "); pos != std::string::npos;
       pos = text.find("Iteration: ", pos + 1))
    ++n;
  c.eq(n, improvements, "number of reports");
  if (improvements) {
    const auto pos = text.rfind("Iteration: ");
    c.eq(std::stoul(text.substr(pos + 11)), best_iteration,
         "iteration of the last report");
  }
  c.nontrivial(improvements >= 3);
}

PBT_CHECK(jittered_starts, 60000, 400000,
          "jitter from a recorded sequence, sizes above and below 2 n + 1: "
          "max(n, 2 params + 1) walkers, the first at the current values, the "
          "others displaced by one draw for each free parameter (or moved to "
          "the bound this would cross), all inside of the bounds; "
          "non-trivial: a bound was crossed.") {
  const auto store = gen_store(c);
  struct Sequence {
    std::mt19937_64 rng;
    double scale;
    std::vector<double> *drawn;
    double operator()(std::default_random_engine &) {
      drawn->push_back(scale * (static_cast<double>(rng() % 2000001) / 1e6 - 1));
      return drawn->back();
    }
  };
  std::vector<double> drawn;
  Sequence jitter{std::mt19937_64(c.u64()), c.logreal(1e-3, 10), &drawn};
  auto e = gen_engine(c);
  const std::size_t n = c.size(0, 30);
  c.show("n", n).show("jitter", jitter.scale);
  const auto got = initial_params_from_jitter(store, jitter, e, n);
  c.eq(got.size(), std::max(n, 2 * store.size() + 1), "number of walkers");
  std::vector<double> base, lo, hi;
  for (const auto &kv : store)
    if (!kv.second.is_fixed()) {
      const auto &pr = kv.second.prior;
      const auto t = [&](double v) {
        return pr.is_log_scale() ? std::log(v) : v;
      };
      base.push_back(t(kv.second.value));
      lo.push_back(t(pr.lower_bound()));
      hi.push_back(t(pr.upper_bound()));
    }
  c.eq(drawn.size(), (got.size() - 1) * base.size(), "draws");
  bool crossed = false;
  std::size_t at = 0;
  for (std::size_t w = 0; w < got.size(); ++w) {
    c.eq(got[w].size(), base.size(), "dimension");
    for (std::size_t k = 0; k < base.size(); ++k) {
      double v = base[k] + (w ? drawn[at++] : 0);
      crossed = crossed || v < lo[k] || v > hi[k];
      v = std::min(hi[k], std::max(lo[k], v));
      c.near(got[w][k], v, 1e-13, 1e-13,
             "walker " + std::to_string(w) + " coordinate " +
                 std::to_string(k));
      c.check(got[w][k] >= lo[k] && got[w][k] <= hi[k], "inside the bounds");
    }
  }
  c.nontrivial(crossed);
}
