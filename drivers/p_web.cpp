// Entry points for the web-server proofs: they only construct the real objects and call them.
#include "server/request_handler.hpp"
#include "server/reply.hpp"
#include "server/request.hpp"
#include "session_manager.hpp"
#include "server/request_parser.hpp"
using namespace http::server3;
extern "C" {
bool vp_url_decode(const std::string& in, std::string& out) { return request_handler::url_decode(in, out); }
void vp_handle(const std::string& root, request& q, reply& r) { request_handler h(root); h.handle_request(q, r); }
void vp_session_id(std::string& out, const std::string& c) { out = SessionManager::SessionId(c); }
void vp_cookie(std::string& out, std::string& id) { out = SessionManager::CookieHeaderValue(id); }
// one byte of the data of a request, in any state the parser can be in after the blank line of the head
int vp_body(std::string& data, int len, int& cnt, int multi, char c, int& stays) {
    request_parser p; request q; q.post_data = data; p.post_data_length_ = len; p.post_data_length_counter_ = cnt;
    request_parser::state s0 = multi ? request_parser::multipart_start : request_parser::post_line_start; p.state_ = s0;
    boost::tribool r = p.consume(q, c);
    data = q.post_data; cnt = p.post_data_length_counter_; stays = p.state_ == s0 && p.post_data_length_ == len;
    return r ? 1 : !r ? 0 : 2;
}
// the end of the head of a POST request announcing len bytes (len as the header lookup and atoi deliver it)
int vp_head_end(request& q, int& len, int& cnt, int& st) {
    request_parser p; p.state_ = request_parser::expecting_newline_3; boost::tribool r = p.consume(q, '\n');
    len = p.post_data_length_; cnt = p.post_data_length_counter_; st = p.state_ == request_parser::multipart_start ? 2 : p.state_ == request_parser::post_line_start ? 1 : 0;
    return r ? 1 : !r ? 0 : 2;
}
void vp_header(std::string& out, request& q, const std::string& name) { out = q.get_header_value(name.c_str()); }
}
