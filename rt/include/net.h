// the network model (rt/net.cpp) as a harness sees it
#pragma once
#include <stdint.h>
void net_init();
// each operation on a connection may be the moment at which it breaks (forked)
extern int net_fault_budget;
extern int net_kinds;           // bit 0: reset, bit 1: closed after what is under way, bit 2: silently cut off
extern const char* net_what;    // the last fault
extern int net_refuse_budget;   // connection attempts that fail
extern int net_chunk;           // a read returns at most this many bytes
extern int net_split_budget;     // reads that return only a part of what is there
extern int net_sndbuf;          // bytes under way in one direction
extern int net_ops;
// called for each write, before the bytes get under way (side 0: the connecting one)
extern void (*net_write_hook)(int conn, int side, char* data, int64_t n);
// a peer played by the harness
int net_listen(int port);       // returns a descriptor
int net_accept(int lfd, int timeout_ms);
int net_connect(int port);
bool net_listening(int port);
