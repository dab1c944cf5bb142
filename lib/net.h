// A model of TCP for the code under test: socket, bind, listen, accept, connect, poll, read, recv, send, shutdown and
// close are interposed. Every byte that arrives, every short read and write and every close is an input of the harness,
// and blocking calls block in the controlled scheduler, so schedules and deliveries are enumerated and not sampled.
#ifndef NET_H
#define NET_H
#include <string>
#include <vector>
namespace net {
void reset();                              // new world: no sockets, time zero
int dial();                                // a client connects; returns the connection
void put(int c, const std::string &seg);   // the client's segment arrives; a read never returns bytes of two segments
void eof(int c);                           // the client closes its end
std::string take(int c, size_t n);         // waits for n bytes, or for the server to close; what has arrived
bool closedByServer(int c);
void awaitClose(int c);                    // waits until the server has closed
void sendCap(size_t n);                    // a send takes at most n bytes (0: all)
void interrupt(int k);                     // every k-th read that would return data is interrupted first (0: none)
void await(long ms);                       // waits until the virtual clock shows ms
void refuse();                             // accept fails from now on
long openFds();                            // accepted and not closed by the server
long virtualMs();
// the other way round: the code under test is the client
void answer(const std::vector<std::string> &segs, bool close); // what the peer sends, after the first bytes sent to it
std::string sent();                        // what the code has sent
}
#endif
