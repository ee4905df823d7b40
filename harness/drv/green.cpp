// Conformance driver for the Green tensors (GreenTensor; property C18).
#include "GreenTensor.hpp"
#include "vlog.hpp"
#include <cmath>
#include <memory>
#include <nlohmann/json.hpp>
using namespace vlog;
using json = nlohmann::json;

static std::string number(double x, double scale) {
    x *= scale;
    return std::isfinite(x) && std::abs(x) < 2e9 ? std::to_string(std::llround(x)) : std::string("2000000000");
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        json in = json::parse(line), g = in["g"];
        double L5 = std::pow(g["L"].get<double>(), 5), L7 = std::pow(g["L"].get<double>(), 7);
        auto t = std::make_unique<GreenTensor>(g["v"][0], g["v"][1], g["v"][2]);
        {
            J j("Start");
            j.raw("v", g["v"].dump()).raw("L", g["L"].dump());
            emit(j);
        }
        for (auto const &op : in["ops"]) {
            std::string o = op["o"], r;
            J j(o);
            j.raw("a", op["a"].dump());
            bool ok = true;
            auto three = [&](GreenTensor::TensorType const &q) {
                std::string s = "[";
                for (int i = 0; i < 3; ++i)
                    for (int k = 0; k < 3; ++k)
                        for (int m = 0; m < 3; ++m)
                            s += std::string(m ? "," : k ? ",[" : i ? ",[[" : "[[") + number(q(i, k, m), L7) +
                                (m < 2 ? "" : k < 2 ? "]" : "]]");
                return s + "]";
            };
            try {
                if (o == "Plate")
                    t->addSurface(op["a"].get<double>() / 2);
                else if (o == "Copy")
                    t = std::make_unique<GreenTensor>(*t);
                else if (o == "DD") {
                    auto const &q = t->getDDTensor();
                    r = "[";
                    for (int i = 0; i < 3; ++i)
                        for (int k = 0; k < 3; ++k)
                            r += std::string(k ? "," : i ? ",[" : "[") + number(q(i, k), L5) + (k < 2 ? "" : "]");
                    r += "]";
                } else if (o == "DQ")
                    r = three(t->getDQTensor());
                else
                    r = three(t->getQDTensor());
            } catch (std::exception const &) {
                ok = false;
            }
            j.b("res_err", !ok);
            if (ok && !r.empty()) j.raw("res", r);
            emit(j);
        }
    }
}
