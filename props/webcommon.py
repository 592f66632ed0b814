import os, build
SRC = ['server/' + f for f in ('psi_server.cpp psi_request_handler.cpp session.cpp session_manager.cpp server/server.cpp server/connection.cpp server/reply.cpp '
       'server/request_handler.cpp server/request_parser.cpp server/mime_types.cpp mpfd-parser/Parser.cpp mpfd-parser/Field.cpp mpfd-parser/Exception.cpp').split()] + ['common/guid_generator.cpp', 'common/logging.cpp', 'common/psi_exception.cpp']
SRC = [s for s in SRC if os.path.exists(os.path.join(build.REPO, s))]
def hopts(n, **k):
    d = {'libs': ['-lboost_thread', '-lboost_system', '-llog4cpp', '-lpthread'], 'defs': ['-DPROP=%d' % n], 'extra_inc': ['server/server', 'server/mpfd-parser', 'server/site']}
    d.update(k); return d
