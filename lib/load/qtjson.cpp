#include <iostream>
#include <fstream>
#include "../ad/qtjson.cpp"
#include <valijson/utils/qtjson_utils.hpp>
#include "../loadlib.hpp"
static LoadReg lreg({"qtjson", true, VIA(D), [](const std::string &b, J &out) -> bool {
    QJsonDocument d = QJsonDocument::fromJson(QByteArray(b.data(), (qsizetype)b.size())); if (d.isNull()) return false; out = take(d.isArray() ? D(d.array()) : D(d.object())); return true;
}});
