// Dictionary of literals harvested from the sources by the driver: lines int=..., dbl=..., str=<hex>.
#include <cstdlib>

#include "core.h"

bool loadDictText(const std::string &l) {
  size_t e = l.find('=');
  if (e == std::string::npos) {
    return false;
  }
  std::string k = l.substr(0, e), v = l.substr(e + 1);
  if (k == "int") {
    g_dict.ints.push_back((i64)strtoll(v.c_str(), nullptr, 10));
  } else if (k == "dbl") {
    g_dict.dbls.push_back(strtod(v.c_str(), nullptr));
  } else if (k == "str") {
    std::string s;
    for (size_t i = 0; i + 1 < v.size(); i += 2) {
      s += (char)strtoul(v.substr(i, 2).c_str(), nullptr, 16);
    }
    g_dict.strs.push_back(s);
  } else {
    return false;
  }
  return true;
}

void loadDict(const char *path) {
  FILE *f = fopen(path, "r");
  if (f == nullptr) {
    return;
  }
  std::string line;
  int c;
  while ((c = fgetc(f)) != EOF) {
    if (c == '\n') {
      loadDictText(line);
      line.clear();
    } else {
      line += (char)c;
    }
  }
  fclose(f);
}

std::string dictText() {
  std::string r;
  for (i64 v : g_dict.ints) {
    r += fmt("int=%lld\n", (long long)v);
  }
  for (double v : g_dict.dbls) {
    r += fmt("dbl=%.17g\n", v);
  }
  for (const auto &s : g_dict.strs) {
    r += "str=" + hexOf((const u8 *)s.data(), s.size(), 100000) + "\n";
  }
  return r;
}
