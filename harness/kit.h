// Helpers for harness modules that drive neco with C++ lambdas.
#pragma once
#include "pbt.h"
#include "vclock.h"
extern "C" {
#include "neco.h"
int neco_pipe(int fds[2]);
int neco_mutex_destroy(neco_mutex *);
int neco_waitgroup_destroy(neco_waitgroup *);
int neco_cond_destroy(neco_cond *);
int neco_stream_make_buffered_size(neco_stream **stream, int fd, size_t buffer_size);
int neco_stream_release(neco_stream *stream);
int neco_testcode(int errcode);
const char *neco_shortstrerror(int errcode);
int neco_errconv_from_sys(void);
void neco_errconv_to_sys(int err);
}
#include <functional>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
typedef std::function<void()> Fn;
extern std::vector<std::string> g_tr;             // event trace of the case
extern std::string g_txt;                         // text of the case
void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void kit_begin(const std::string &text);          // installs text + trace as rendering
int go(Fn f);                                     // neco_start of a coroutine running f; returns its result
int gov(Fn f);                                    // same through neco_startv
void run_rt(Fn f, bool leak = true);              // run a runtime whose first coroutine runs f; checks leaks
void vc_begin(int64_t tick = 1, uint64_t budget = 3000000); // virtual clock on
void alloc_install();
long alloc_live();
extern long alloc_fail_at, alloc_count;
int count_fds();
long count_maps();
int count_threads();
