#include <iostream>
#include <fstream>
#include "../ad/qvariant.cpp"
#include <valijson/utils/qvariant_utils.hpp>
#include "../loadlib.hpp"
static LoadReg lreg({"qvariant", true, VIA(D), [](const std::string &b, J &out) -> bool {
    QJsonDocument d = QJsonDocument::fromJson(QByteArray(b.data(), (qsizetype)b.size())); if (d.isNull()) return false; out = take(d.toVariant()); return true;
}});
