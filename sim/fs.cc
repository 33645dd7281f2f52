#include "core.h"

#include <algorithm>

namespace sim {
void Fs::Reset() {
  root = std::make_shared<Inode>();
  root->ino = 2;
  root->type = NodeType::kDir;
  root->mode = 0755;
  root->parent = root;
  next_ino = 3;
  bytes_free = -1;
  dev_next.clear();
}

InodeP Fs::NewNode(NodeType t, uint64_t dev) {
  auto n = std::make_shared<Inode>();
  n->ino = next_ino++;
  n->dev = dev;
  n->dev_ino = ++dev_next[dev] + 1;
  n->type = t;
  n->mode = t == NodeType::kDir ? 0755 : 0644;
  n->mtime_ns = S ? S->now_ns : 0;
  return n;
}

static std::vector<std::string> Split(const std::string &path) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < path.size()) {
    size_t j = path.find('/', i);
    if (j == std::string::npos) j = path.size();
    if (j > i) r.push_back(path.substr(i, j - i));
    i = j + 1;
  }
  return r;
}

InodeP Fs::MkdirP(const std::string &path) {
  InodeP cur = root;
  for (const auto &c : Split(path)) {
    if (c == ".") continue;
    if (c == "..") { cur = cur->parent.lock(); continue; }
    auto it = cur->children.find(c);
    if (it == cur->children.end()) {
      InodeP n = NewNode(NodeType::kDir, cur->dev);
      n->parent = cur;
      cur->children[c] = n;
      cur->order.push_back(c);
      cur = n;
    } else {
      cur = it->second;
      int depth = 0;
      while (cur->type == NodeType::kSymlink && depth++ < 20) {
        InodeP t = Lookup(cur->data[0] == '/' ? cur->data : path, true);
        if (!t) return nullptr;
        cur = t;
      }
    }
  }
  return cur;
}

InodeP Fs::Lookup(const std::string &path, bool follow) {
  std::vector<std::string> todo = Split(path);
  std::reverse(todo.begin(), todo.end());
  InodeP cur = root;
  int links = 0;
  while (!todo.empty()) {
    const std::string c = todo.back();
    todo.pop_back();
    if (cur->type != NodeType::kDir) return nullptr;
    if (c == ".") continue;
    if (c == "..") { cur = cur->parent.lock(); continue; }
    auto it = cur->children.find(c);
    if (it == cur->children.end()) return nullptr;
    InodeP n = it->second;
    if (n->type == NodeType::kSymlink && (follow || !todo.empty())) {
      if (++links > 40) return nullptr;
      auto comps = Split(n->data);
      for (auto i = comps.rbegin(); i != comps.rend(); ++i) todo.push_back(*i);
      if (!n->data.empty() && n->data[0] == '/') cur = root;
      continue;
    }
    cur = n;
  }
  return cur;
}

static std::pair<std::string, std::string> DirBase(const std::string &path) {
  size_t s = path.find_last_of('/');
  return {path.substr(0, s), path.substr(s + 1)};
}

void Fs::WriteFile(const std::string &path, const std::string &content) {
  auto [d, b] = DirBase(path);
  InodeP dir = MkdirP(d);
  auto it = dir->children.find(b);
  InodeP n;
  if (it != dir->children.end() && it->second->type == NodeType::kFile) {
    n = it->second;
  } else {
    if (it == dir->children.end()) dir->order.push_back(b);
    n = NewNode(NodeType::kFile, dir->dev);
    n->parent = dir;
    dir->children[b] = n;
  }
  n->data = content;
  n->mtime_ns = S ? S->now_ns : 0;
}

void Fs::Symlink(const std::string &target, const std::string &path) {
  auto [d, b] = DirBase(path);
  InodeP dir = MkdirP(d);
  InodeP n = NewNode(NodeType::kSymlink, dir->dev);
  n->data = target;
  n->parent = dir;
  if (!dir->children.count(b)) dir->order.push_back(b);
  dir->children[b] = n;
}

bool Fs::ReadFile(const std::string &path, std::string *out) {
  InodeP n = Lookup(path);
  if (!n || n->type != NodeType::kFile) return false;
  *out = n->data;
  return true;
}

void Fs::Remove(const std::string &path) {
  auto [d, b] = DirBase(path);
  InodeP dir = Lookup(d);
  if (!dir || dir->type != NodeType::kDir) return;
  dir->children.erase(b);
  auto &o = dir->order;
  o.erase(std::remove(o.begin(), o.end(), b), o.end());
}

void Fs::SetMtime(const std::string &path, int64_t ns) {
  if (InodeP n = Lookup(path)) n->mtime_ns = ns;
}

std::vector<std::string> Fs::ListDir(const Inode &dir) const {
  std::vector<std::string> r;
  r.reserve(dir.children.size() + 2);
  r.push_back(".");
  r.push_back("..");
  switch (cfg.order) {
    case DirOrder::kSorted: for (auto &[n, _] : dir.children) r.push_back(n); break;
    case DirOrder::kReverse:
      for (auto it = dir.children.rbegin(); it != dir.children.rend(); ++it) r.push_back(it->first);
      break;
    case DirOrder::kCreation: for (auto &n : dir.order) r.push_back(n); break;
    case DirOrder::kHashed: {
      for (auto &[n, _] : dir.children) r.push_back(n);
      const uint64_t s = Mix(cfg.order_seed, dir.ino);
      std::sort(r.begin(), r.end(), [&](const std::string &a, const std::string &b) {
        const uint64_t ha = Mix(HashStr(a), s), hb = Mix(HashStr(b), s);
        return ha != hb ? ha < hb : a < b;
      });
      break;
    }
  }
  return r;
}

uint64_t Fs::ShownIno(const Inode &n) const {
  switch (cfg.ino_mode) {
    case FsConfig::kSequential: return n.ino;
    case FsConfig::kLarge: return n.ino + (1ull << 40) * 3;
    case FsConfig::kZero: return 0;
    case FsConfig::kAllOnes: return ~0ull;
    case FsConfig::kCollidePerDev: return n.dev_ino;
    case FsConfig::kRandom: return Mix(n.ino, cfg.order_seed + n.dev * 77) >> 8 | 1;
  }
  return n.ino;
}

static void Snap(const Inode &n, const std::string &path, std::map<std::string, std::string> *out) {
  switch (n.type) {
    case NodeType::kFile: (*out)[path] = "F" + n.data; break;
    case NodeType::kSymlink: (*out)[path] = "L" + n.data; break;
    case NodeType::kDir:
      (*out)[path + "/"] = "D";
      for (auto &[name, c] : n.children) Snap(*c, path + "/" + name, out);
      break;
  }
}
std::map<std::string, std::string> Fs::Snapshot(const std::string &path) {
  std::map<std::string, std::string> r;
  InodeP n = Lookup(path);
  if (n) Snap(*n, path == "/" ? "" : path, &r);
  return r;
}
static uint64_t Dig(const Inode &n, uint64_t h, bool mt) {
  h = Mix(h, (int)n.type);
  if (mt && n.type == NodeType::kFile) h = Mix(h, n.mtime_ns);
  h = Mix(h, HashStr(n.data));
  h = Mix(h, n.mode);
  for (auto &[name, c] : n.children) h = Dig(*c, Mix(h, HashStr(name)), mt);
  return h;
}
uint64_t Fs::Digest(const std::string &path, bool with_mtime) {
  InodeP n = Lookup(path);
  return n ? Dig(*n, 7, with_mtime) : 0;
}
}  // namespace sim
