// A simulated TCP stack: the socket calls of this process work on sockets
// that exist only here, so that executions are controlled and faults can be
// injected. Runs under vsched.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

struct Faults {
  int budget = 0;       // how many faults may still happen
  int eintr = 0;        // percent: interrupted calls
  int shortSend = 0;    // percent: send takes only a part
  int shortRecv = 0;    // percent: recv returns less than there is
  int reset = 0;        // percent: connection reset at a send or recv
  int acceptAborted = 0;  // percent: accept: ECONNABORTED
  int acceptHard = 0;   // percent: accept: EMFILE
  int setup = 0;        // percent: socket, bind, listen fail
  int connectErr = 0;   // percent: connect fails at once with ENETUNREACH
};
extern Faults faults;
extern size_t capacity;   // of each direction of a connection
extern bool reuseFds;     // closed descriptors are given out again
extern bool delayedAck;   // non-blocking connects complete later

void begin();             // forget everything
int openFds();
bool listening(int port);
// a listener that is not the library's
bool rawListen(int port);
void rawClose(int port);
// the connection the calling thread's last socket call was about (0: none)
int lastConn();
void clearLastConn();
// the id the next connection made by this thread gets
void setNextConn(int id);

}  // namespace sim
