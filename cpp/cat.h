// Catalogue of source images and pending operations shared by the pixel checks.
#pragma once
#include "ref.h"

namespace cat {
struct File { ImgFile f; const char *cs; const char *key; };    // cs: what a reader reports
const std::vector<File> &files();                // paths are inside the suite's scratch directory
const int SMALL = 11;                            // files 0..SMALL-1 are small, the rest large
void write_files();
// Files of unusual values: 0/1 foreground and background of every pair of values and alphas, 2 rgba and 3 rgb
// floats with one unusual channel, 4 the same as half floats, 5/6 like 0/1 with three channels.
const std::vector<File> &values();
void write_values();
ref::Stream value_stream(int i);                              // call from a fixture
ref::Stream stream(int file);                    // reference of reading it
Node reader(G &g, int file, bool use_cache = true);

// A pending operation: a grade, a transform or a lens distortion.
struct PendOp { int kind; ref::Grade g; ref::Deform d; const char *key; };
const std::vector<PendOp> &pend_ops();
typedef std::vector<int> Chain;                  // indices into pend_ops, applied in order
Node chain_node(G &g, Node src, const Chain &c);
void chain_ref(ref::Stream &s, const Chain &c);
std::string chain_str(const Chain &c);
}
