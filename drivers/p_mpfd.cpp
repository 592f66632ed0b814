// Entry points and member offsets for the proofs about the multipart parser.
#include <string>
#include <map>
#include <sstream>
#include <fstream>
#include <cstring>
#include <cstdlib>
#include <cstddef>
#define private public
#include "Parser.h"
#include "Field.h"
#undef private
using namespace MPFD;
extern "C" {
extern const long vp_parser_off[] = {offsetof(Parser, Boundary), offsetof(Parser, DataCollector), offsetof(Parser, DataCollectorLength), offsetof(Parser, MaxDataCollectorLength), offsetof(Parser, CurrentStatus), offsetof(Parser, ProcessingFieldName), offsetof(Parser, TempDirForFileUpload), offsetof(Parser, WhereToStoreUploadedFiles)};
extern const long vp_field_off[] = {offsetof(Field, FieldContent), offsetof(Field, FieldContentLength), offsetof(Field, type), offsetof(Field, WhereToStoreUploadedFiles)};
extern const long vp_status[] = {Parser::Status_LookingForStartingBoundary, Parser::Status_ProcessingHeaders, Parser::Status_ProcessingContentOfTheField};
extern const long vp_kinds[] = {Field::TextType, Field::FileType, Parser::StoreUploadedFilesInMemory};
void vp_process(Parser* p) { p->_ProcessData(); }
long vp_boundary(Parser* p) { return p->BoundaryPositionInDataCollector(); }
void vp_trunc(Parser* p, long n) { p->TruncateDataCollectorFromTheBeginning(n); }
void vp_parse(Parser* p, const std::string* h) { p->_ParseHeaders(*h); }
bool vp_start(Parser* p) { return p->FindStartingBoundaryAndTruncData(); }
bool vp_content(Parser* p) { return p->ProcessContentOfTheField(); }
bool vp_headers(Parser* p) { return p->WaitForHeadersEndAndParseThem(); }
void vp_accept(Parser* p, const char* d, long n) { p->AcceptSomeData(d, n); }
void vp_field(Field* f, char* d, long n) { f->AcceptSomeData(d, n); }
}
