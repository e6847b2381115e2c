// In-memory operating system: files, descriptors, pipes, sockets, working directory, locales.
#pragma once
#include "sim.h"
#include <csignal>
#include <sys/types.h>

namespace sim {
enum KType { K_REG, K_DIR, K_FIFO, K_CHR, K_SOCK };

// --- set-up and inspection by scenarios: no scheduling points, no faults ---
int k_mkfile(const std::string& path, const std::string& content, int perm = 0644);  // inode
int k_mkdir(const std::string& path);
int k_mkfifo(const std::string& path);
int k_mkchr(const std::string& path);
bool k_exists(const std::string& path);
int k_ino_of(const std::string& path);          // -1: none
std::string k_content(int ino);
void k_base(int ino, int64_t base);   // the contents start at this position, after a hole
std::string k_file(const std::string& path);     // contents or "<none>"
std::vector<std::string> k_list(const std::string& dir);
int k_perm(int ino);
int k_open(const std::string& path, int flags, int perm = 0644);  // descriptor or -errno
void k_pipe(int fd[2]);
void k_socketpair(int fd[2]);
void k_close(int fd);
int k_dup(int fd);
void k_fd_min(int fd);                           // all smaller descriptors are in use
bool k_is_open(int fd);
std::vector<int> k_fds();
int k_fd_ino(int fd);
void k_seek(int fd, off_t o);
off_t k_offset(int fd);
int k_fd_flags(int fd);                          // file status flags
int k_fd_cloexec(int fd);
std::string k_in_transit(int fd);                // bytes that can be read from this descriptor
std::string k_total(int ino);                    // everything that was ever written to this stream
std::string k_consumed(int ino);                 // everything that was ever read from this stream
struct KXfer { int fiber; bool input; size_t pos, len; };
const std::vector<KXfer>& k_xfers(int ino);      // transfers of this stream, oldest first; pos counts in k_consumed() or k_total()
void k_push(int ino, const std::string& data);   // input for a stream arrives (also wakes readers)
std::string k_pull(int fd, size_t n);            // the other end takes data out of the stream of this descriptor
void k_set_fl(int fd, int flags);                // file status flags
std::string k_last_lock(int fd);                 // "type start len wait" of the last lock operation on this descriptor
int k_owner(int fd);
// sockets of the peers: connection from/to the program under test
int k_listen(const std::string& addr, int backlog);            // descriptor
int k_connect(int listener_ino, const std::string& from);      // descriptor, -1: queue is full
int k_accept(int fd);                                          // descriptor, -1: none pending
std::vector<int> k_listeners();
int k_backlog(int ino);    // connections that wait for accept()
int k_peer(int ino);                                           // -1: closed
bool k_peer_closed(int ino);
int k_sock_state(int ino);                                     // 0 new, 1 bound, 2 listening, 3 connected
std::string k_sock_addr(int ino);
std::string k_cwd();
void k_chdir(const std::string& path);
void k_capacity(int ino, size_t n);
std::string k_locale(int category);              // global locale
void* k_newlocale(const std::string& name);
size_t k_live_locales();
void* k_thread_locale();
std::string k_locale_desc(void* loc);
struct KErr { const char* call; int err; bool injected; };
std::vector<KErr>& k_errors(int fiber);          // failed calls of a thread, oldest first
uint64_t k_calls(const char* name);
int k_sync_count();
// signals
struct sigaction& k_sigaction(int sig);
bool k_sigblocked(int sig);                      // for the current thread
void k_deliver(int sig, siginfo_t* si, void* uc);   // runs the handler on the current thread
}  // namespace sim
