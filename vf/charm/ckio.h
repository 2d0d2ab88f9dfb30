// Stand-in for the part of Charm++'s CkIO that the generated programs use.
#ifndef VF_CKIO_H
#define VF_CKIO_H
#include "pup.h"
class CkCallback;
namespace Ck {
namespace IO {
struct Options {};
struct File { int id = -1; void pup(PUP::er &p) { p | id; } };
struct Session { int id = -1; void pup(PUP::er &p) { p | id; } };
class FileReadyMsg;
class SessionReadyMsg;
void open(std::string name, CkCallback opened, Options opts);
void startSession(File file, size_t bytes, size_t offset, CkCallback ready, CkCallback complete);
void write(Session session, const char *data, size_t bytes, size_t offset);
void close(File file, CkCallback closed);
} // namespace IO
} // namespace Ck
#endif
