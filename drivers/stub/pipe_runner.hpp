// Stand-in for the pipeline runner when only the JSON service around it is under contract:
// it produces any output, and throws or not, as the harness says.
#ifndef PIPE_RUNNER_HDR
#define PIPE_RUNNER_HDR
#include <string>
#include <iostream>
#include <stdexcept>
struct PipeRunner {
    static std::string& output() { static std::string o; return o; }
    static bool& fails() { static bool f; return f; }
    static std::string& got() { static std::string o; return o; }
    explicit PipeRunner(const std::string& pipeline) { got() = pipeline; }
    int run(std::istream& in, std::ostream& out) {
        if (fails()) throw std::runtime_error(output());
        got() += "\n" + std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
        out << output(); return 0;
    }
};
#endif
