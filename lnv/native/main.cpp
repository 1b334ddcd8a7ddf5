#include "rt.h"
std::map<std::string, std::function<void(In&, Out&)>> REG;
void reg_all0(); void reg_all1(); void reg_all2(); void reg_all3(); void reg_all4(); void reg_all5(); void reg_all6();
int main() {
    reg_all0(); reg_all1(); reg_all2(); reg_all3(); reg_all4(); reg_all5(); reg_all6();
    std::string line;
    while (std::getline(std::cin, line)) {
        In in; in.s.str(line);
        std::string key = in.tok();
        int tmo = atoi(in.tok().c_str());
        auto it = REG.find(key);
        Out o;
        if (it == REG.end()) o = "NOFN";
        else {
            alarm(tmo);
            try { it->second(in, o); }
            catch (std::invalid_argument&) { o = "EXC std::invalid_argument"; }
            catch (std::out_of_range&) { o = "EXC std::out_of_range"; }
            catch (std::length_error&) { o = "EXC std::length_error"; }
            catch (std::bad_alloc&) { o = "EXC std::bad_alloc"; }
            catch (std::exception&) { o = "EXC std::exception"; }
            alarm(0);
        }
        fputs(o.c_str(), stdout); fputc('\n', stdout); fflush(stdout);
    }
    return 0;
}
