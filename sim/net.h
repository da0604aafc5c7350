// Simulated network (stream sockets) for the server variant.
#pragma once
#include "core.h"
struct NConn { int id; u64 serial; uint32_t ip; uint16_t port; std::string c2s, s2c; bool c_fin = false, s_fin = false, s_closed = false, c_closed = false, rst = false, accepted = false; size_t window = 65536, s_sent = 0; int recv_err = 0, send_err = 0; bool getpeer_fail = false; };
NConn* cl_connect(uint32_t ip, uint16_t port);     // nullptr: refused
void cl_send(NConn* c, const std::string& d);      // the bytes arrive at the server
size_t cl_take(NConn* c, std::string& out, size_t max); // read what has arrived
bool cl_wait(NConn* c, u64 deadline);              // wait for bytes, end of stream or reset; false: time is up
void cl_fin(NConn* c);                             // shutdown of the sending side
void cl_close(NConn* c, bool reset);
int net_open_server_conns();                       // connections the server has accepted and not closed
bool net_listening();
extern std::function<void(NConn*)> net_on_accept;
extern std::map<std::string, std::string> sim_envs[MAXPROC]; // environment of the simulated processes
extern std::string sim_inputs[MAXPROC];                      // what the simulated processes read from standard input
