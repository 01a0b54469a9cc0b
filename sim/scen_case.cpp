// Scenarios at the level of the programs: whole simulations (`hexecute`), the interpreter (`hil`), and inspection of
// what they leave behind (with the real operating system, without any code of the program under test).
#include "harness.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <cstdio>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <hdf5.h>

extern "C" int hexecute_main(int, char**);
extern "C" int hil_main(int, char**);

namespace sim {

static const Job* cur_job;
static std::string user_file;

// the simulated user appends one line to the file of runtime commands (one atomic step)
static void user_act(int64_t which)
{
  std::string path = cur_job->get("user");
  std::ifstream cmds(cur_job->get("user_cmds"));
  std::string line;
  for (int64_t i = 0; i <= which; ++i) if (!std::getline(cmds, line)) return;
  size_t p;
  while ((p = line.find("\\n")) != std::string::npos) line.replace(p, 2, "\n");
  line += "\n";
  int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666);
  if (fd < 0) { out.probe("user could not write"); return; }
  ssize_t r = syscall(SYS_write, fd, line.data(), line.size()); (void)r;
  syscall(SYS_close, fd);
  struct stat st; int64_t log_size = 0;
  std::string log = path.substr(0, path.rfind('/') + 1) + "output.txt";
  if (!stat(log.c_str(), &st)) log_size = st.st_size;
  out.ints(fmt("delivered %ld", (long)which), {log_size});
}

static void program(const Job& job, int (*f)(int, char**), const char* name)
{
  cur_job = &job;
  if (!job.get("user").empty()) user_hook = user_act;
  std::vector<std::string> args {name};
  std::string a = job.get("arg");
  if (!a.empty()) args.push_back(a);
  std::vector<char*> argv;
  for (auto& s : args) argv.push_back(s.data());
  argv.push_back(nullptr);
  int rc = -1;
  begin_sim(job);
  alloc_arm(true);
  try {
    rc = f((int)args.size(), argv.data());
  } catch (...) { std::cout.flush(); end_sim(); throw; }
  std::cout.flush();
  end_sim();
  out.integer("return value", rc);
}
static void case_scenario(const Job& job) { program(job, hexecute_main, "hexecute"); }
static void hil_scenario(const Job& job) { program(job, hil_main, "hil"); }
static Register r0("case", case_scenario);
static Register r1("hil", hil_scenario);

static std::string hash_file(const std::string& p)
{
  std::string s = read_text(p);
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c)*1099511628211ull;
  return fmt("%zu:%016lx", s.size(), h);
}

// identity of the content of an HDF5 file, independent of the layout of the file
static std::string h5_identity(const std::string& p, std::string& why)
{
  auto keep = std::move(out.secs); out.secs.clear();
  bool ok = digest_h5("", p, true, &why);
  uint64_t d = 1469598103934665603ull;
  auto feed = [&](const void* q, size_t n) { for (size_t i = 0; i < n; ++i) d = (d ^ ((const unsigned char*)q)[i])*1099511628211ull; };
  for (auto& x : out.secs) { feed(x.name.data(), x.name.size()); feed(x.i.data(), x.i.size()*8); feed(x.d.data(), x.d.size()*8); }
  size_t n = out.secs.size();
  out.secs = std::move(keep);
  if (!ok) return "unreadable";
  return fmt("%zu:%016lx", n, d);
}

// does the data set that a visualisation file refers to exist, with the extent it gives?
static std::string check_ref(const std::string& dir, const std::string& ref)
{
  size_t bar = ref.rfind('|'), colon = ref.find(':');
  if (colon == std::string::npos || bar == std::string::npos) return "malformed reference";
  std::string file = dir + "/" + ref.substr(0, colon), set = ref.substr(colon + 1, bar - colon - 1), dims = ref.substr(bar + 1);
  size_t cut = set.find('|'); if (cut != std::string::npos) set = set.substr(0, cut); // hyperslab selection
  hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (f < 0) return "file can not be opened";
  std::string res;
  hid_t d = H5Dopen2(f, set.c_str(), H5P_DEFAULT);
  if (d < 0) res = "no such data set";
  else {
    hid_t sp = H5Dget_space(d);
    hssize_t n = H5Sget_simple_extent_npoints(sp), want = 1;
    std::stringstream ss(dims); hssize_t k; while (ss >> k) want *= k;
    if (n < want) res = fmt("%ld values instead of %ld", (long)n, (long)want);
    else if (n > 0) {
      std::vector<double> v(n);
      if (H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0) res = "can not be read";
    }
    H5Sclose(sp); H5Dclose(d);
  }
  H5Fclose(f);
  return res;
}

static void xml_data_items(xmlNode* n, std::vector<std::string>& refs, int& grids)
{
  for (; n; n = n->next) {
    if (n->type == XML_ELEMENT_NODE) {
      if (!xmlStrcmp(n->name, (const xmlChar*)"Grid")) ++grids;
      if (!xmlStrcmp(n->name, (const xmlChar*)"DataItem")) {
        xmlChar* f = xmlGetProp(n, (const xmlChar*)"Format");
        xmlChar* dims = xmlGetProp(n, (const xmlChar*)"Dimensions");
        if (f && !xmlStrcmp(f, (const xmlChar*)"HDF")) {
          xmlChar* c = xmlNodeGetContent(n);
          std::string s = c ? (const char*)c : "";
          size_t a = s.find_first_not_of(" \n\t\r"), b = s.find_last_not_of(" \n\t\r");
          if (a != std::string::npos) refs.push_back(s.substr(a, b - a + 1) + "|" + (dims ? (const char*)dims : ""));
          xmlFree(c);
        }
        if (f) xmlFree(f);
        if (dims) xmlFree(dims);
      }
    }
    xml_data_items(n->children, refs, grids);
  }
}

static void inspect_dir(const std::string& dir)
{
  std::vector<std::string> names;
  DIR* d = opendir(dir.c_str());
  if (!d) { out.text("directory " + dir, "missing"); return; }
  while (auto* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
  closedir(d);
  std::sort(names.begin(), names.end());
  auto ends = [](const std::string& s, const char* t) { size_t n = strlen(t); return s.size() >= n && s.compare(s.size() - n, n, t) == 0; };
  for (auto& n : names) {
    std::string p = dir + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st)) continue;
    if (S_ISLNK(st.st_mode)) {
      char b[4096]; ssize_t k = readlink(p.c_str(), b, 4095);
      out.text("link " + n, std::string(b, k > 0 ? k : 0));
      if (stat(p.c_str(), &st)) { out.text("file " + n, "dangling"); continue; }
    }
    if (S_ISDIR(st.st_mode)) { out.text("directory " + n, ""); continue; }
    if (ends(n, ".h5")) {
      std::string why, id = h5_identity(p, why);
      if (ends(n, ".mesh.h5") && id != "unreadable") {
        auto keep = std::move(out.secs); out.secs.clear();
        bool ok = digest_mesh("", p, "", false);
        std::string bad;
        for (auto& x : out.secs) if (x.name == "unreadable mesh") bad = x.s;
        int64_t elems = -1; for (auto& x : out.secs) if (x.name == "counts" && x.i.size() > 2) elems = x.i[2];
        out.secs = std::move(keep);
        if (!ok) { id = "unreadable"; why = bad; }
        else out.integer("elements " + n, elems);
      }
      out.text("file " + n, id);
      if (!why.empty()) out.text("why " + n, why);
    } else if (ends(n, ".xmf")) {
      xmlDoc* doc = xmlReadFile(p.c_str(), nullptr, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
      if (!doc) { out.text("file " + n, "unreadable"); continue; }
      std::vector<std::string> refs; int grids = 0;
      xml_data_items(xmlDocGetRootElement(doc), refs, grids);
      xmlFreeDoc(doc);
      std::string r;
      for (auto& s : refs) { r += s + "\n"; std::string w = check_ref(dir, s); if (!w.empty()) { out.text("why " + n, s + ": " + w); break; } }
      out.text("file " + n, hash_file(p));
      out.integer("grids " + n, grids);
      out.text("refs " + n, r);
    } else out.text("file " + n, hash_file(p));
  }
}
// optionally: all data sets the visualisation files refer to
static void inspect_scenario(const Job& job)
{
  std::string dirs = job.get("dirs", ".");
  std::stringstream ss(dirs); std::string d;
  while (std::getline(ss, d, ',')) inspect_dir(d);
}
static Register r2("inspect", inspect_scenario);

// canonical content of a mesh and state pair
static void pair_scenario(const Job& job)
{
  digest_mesh("", job.get("mesh"), job.get("state"), true);
}
static Register r3("pair", pair_scenario);

// what the visualisation files show, independent of the order of elements
static void xml_attributes(xmlNode* n, const std::string& name, std::vector<std::pair<std::string, std::string>>& res)
{
  for (; n; n = n->next) {
    std::string nm = name;
    if (n->type == XML_ELEMENT_NODE) {
      std::string el = (const char*)n->name;
      if (el == "Attribute" || el == "Geometry" || el == "Topology") {
        xmlChar* a = xmlGetProp(n, (const xmlChar*)"Name"); xmlChar* t = xmlGetProp(n, (const xmlChar*)"Type");
        nm = el + " " + (a ? (const char*)a : "") + " " + (t ? (const char*)t : "");
        if (a) xmlFree(a);
        if (t) xmlFree(t);
      }
      if (el == "Time") { xmlChar* a = xmlGetProp(n, (const xmlChar*)"Value"); res.push_back({"time", a ? (const char*)a : ""}); if (a) xmlFree(a); }
      if (el == "DataItem") {
        xmlChar* c = xmlNodeGetContent(n); xmlChar* f = xmlGetProp(n, (const xmlChar*)"Format");
        std::string s = c ? (const char*)c : "";
        size_t a = s.find_first_not_of(" \n\t\r"), b = s.find_last_not_of(" \n\t\r");
        s = a == std::string::npos ? "" : s.substr(a, b - a + 1);
        res.push_back({nm + (f && !xmlStrcmp(f, (const xmlChar*)"HDF") ? "" : " (text)"), s});
        xmlFree(c);
        if (f) xmlFree(f);
      }
    }
    xml_attributes(n->children, nm, res);
  }
}
static void visdata_scenario(const Job& job)
{
  std::string dir = job.get("dirs", ".");
  std::vector<std::string> names;
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  while (auto* e = readdir(d)) { std::string n = e->d_name; if (n.size() > 4 && n.substr(n.size() - 4) == ".xmf") names.push_back(n); }
  closedir(d);
  std::sort(names.begin(), names.end());
  for (auto& n : names) {
    xmlDoc* doc = xmlReadFile((dir + "/" + n).c_str(), nullptr, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
    if (!doc) { out.text(n, "unreadable"); continue; }
    std::vector<std::pair<std::string, std::string>> items;
    xml_attributes(xmlDocGetRootElement(doc), "", items);
    xmlFreeDoc(doc);
    std::map<std::string, double> scale;
    struct Set { std::string name; std::vector<double> v; };
    std::vector<Set> sets;
    for (auto& it : items) {
      if (it.first == "time" || it.first.size() > 7 && it.first.substr(it.first.size() - 7) == " (text)") { out.real(n + " " + it.first, atof(it.second.c_str()), 1e-3); continue; }
      size_t colon = it.second.find(':');
      std::vector<double> v;
      hid_t f = H5Fopen((dir + "/" + it.second.substr(0, colon)).c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
      if (f >= 0) {
        std::string set = it.second.substr(colon + 1); size_t cut = set.find('|'); if (cut != std::string::npos) set = set.substr(0, cut);
        hid_t ds = H5Dopen2(f, set.c_str(), H5P_DEFAULT);
        if (ds >= 0) { hid_t sp = H5Dget_space(ds); v.resize(H5Sget_simple_extent_npoints(sp)); if (!v.empty() && H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0) v.clear(); H5Sclose(sp); H5Dclose(ds); }
        H5Fclose(f);
      }
      if (it.first.rfind("Geometry", 0) == 0) { // the coordinates separately
        int nd = it.first.find("XYZ") != std::string::npos ? 3 : 2;
        for (int k = 0; k < nd; ++k) { Set s {it.first, {}}; for (size_t i = k; i < v.size(); i += nd) s.v.push_back(v[i]); sets.push_back(s); }
      } else sets.push_back({it.first, v});
    }
    auto family = [](std::string s) { std::string r; for (char c : s) if (!isdigit((unsigned char)c)) r += c; return r; };
    for (auto& s : sets) for (double x : s.v) if (std::abs(x) < 1e300) scale[family(s.name)] = std::max(scale[family(s.name)], std::abs(x));
    for (auto& s : sets) { std::sort(s.v.begin(), s.v.end(), [](double a, double b) { return std::isnan(b) ? !std::isnan(a) : a < b; }); out.reals(n + " " + s.name, s.v, scale[family(s.name)]); }
  }
}
static Register r4("visdata", visdata_scenario);

// damages one value of an HDF5 file through the library (the file itself stays well-formed); with the real operating system
struct Sets { std::vector<std::string> names; };
static herr_t list_sets(hid_t, const char* name, const H5O_info_t* info, void* data) { if (info->type == H5O_TYPE_DATASET) ((Sets*)data)->names.push_back(name); return 0; }
static void corrupt_scenario(const Job& job)
{
  std::string path = job.get("file"), want = job.get("set");
  double u = atof(job.get("at", "0").c_str());
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
  if (f < 0) { out.text("done", "no file"); return; }
  Sets sets;
  H5Ovisit2(f, H5_INDEX_NAME, H5_ITER_NATIVE, list_sets, &sets, H5O_INFO_BASIC);
  std::string name;
  for (auto& n : sets.names) if (n.find(want) != std::string::npos) name = n;
  hid_t d = name.empty() ? -1 : H5Dopen2(f, name.c_str(), H5P_DEFAULT);
  if (d < 0) { H5Fclose(f); out.text("done", "no data set"); return; }
  if (job.geti("remove", 0)) { H5Dclose(d); H5Ldelete(f, name.c_str(), H5P_DEFAULT); H5Fclose(f); out.text("done", name + " removed"); return; }
  hid_t t = H5Dget_type(d), sp = H5Dget_space(d);
  hssize_t n = H5Sget_simple_extent_npoints(sp);
  std::string what = "nothing";
  if (n > 0 && H5Tget_class(t) == H5T_INTEGER) {
    std::vector<int> v(n);
    H5Dread(d, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
    hssize_t k = std::min<hssize_t>(n - 1, (hssize_t)(u*n));
    int old = v[k];
    std::string val = job.get("value");
    v[k] = val == "count" ? (int)n : val == "next" ? old + 1 : val == "other" ? v[(k + 1 + (hssize_t)(u*1e6)%n)%n] : atoi(val.c_str());
    what = fmt("%s[%ld]: %d instead of %d", name.c_str(), (long)k, v[k], old);
    if (v[k] == old) what = "nothing";
    H5Dwrite(d, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
  } else if (n > 0 && H5Tget_class(t) == H5T_FLOAT) {
    std::vector<double> v(n);
    H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
    hssize_t k = std::min<hssize_t>(n - 1, (hssize_t)(u*n));
    what = fmt("%s[%ld]: NaN instead of %g", name.c_str(), (long)k, v[k]);
    v[k] = NAN;
    H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
  }
  H5Sclose(sp); H5Tclose(t); H5Dclose(d); H5Fclose(f);
  out.text("done", what);
}
static void shape_scenario(const Job& job) { int x = shapes_match(job.get("mesh"), job.get("state")); if (x >= 0) out.integer("match", x); }
static Register r6("shape", shape_scenario);
static Register r5("corrupt", corrupt_scenario);
}
