// Allocation and stream ledger for the library under test. The library's
// objects are linked with --wrap=malloc etc., so that each allocation it makes
// is recorded, can be made to fail, and is filled with a chosen byte.
#pragma once
#include <string>
#include <cstddef>
#include <functional>
void mt_begin();                 // start of a case: forget everything recorded
std::string mt_end();            // "" or a description of what is still allocated/open
void mt_ignoreLeaks(bool);       // the case does not claim leak freedom
long mt_allocCount();            // allocations since mt_begin / mt_failAt
void mt_failAt(long k);          // make the k-th allocation (1-based) from now fail; 0 = never
bool mt_failed();                // did the injected failure happen?
void mt_fill(int byte);          // fill byte of fresh heap memory (-1: leave)
long mt_live();                  // live allocations
// stream faults: streams opened while a plan is set fail as planned
struct IoPlan { long open = 0, close = 0; long bytes = -1; long buffer = -1; bool seekable = true; };   // k-th open/close fails; transfers fail after that many bytes; stdio buffer size (-1: default)
void mt_io(const IoPlan *p);
bool mt_ioFailed();
long mt_ioMoved();               // bytes moved since mt_io
long mt_openFiles();
void mt_rand(std::function<int()> f);   // source of rand() for the library (none: the real one)
void mt_pause(bool);                 // while paused, allocations are recorded but neither counted nor failed, and streams are not subject to the plan
void mt_cap(size_t bytes);       // allocations above this size fail (0: default cap)
void mt_time(long t);             // what time() says to the library and the program (-1: the real time)
long mt_bytes();                 // bytes cleared by calloc or moved by realloc so far
