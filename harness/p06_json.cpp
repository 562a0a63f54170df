//@unit {"repo":["src/DNDS/MPI.cpp","src/DNDS/Profiling.cpp","src/DNDS/SerializerJSON.cpp"],"lib":["dndsstub.cpp","mockmpi.cpp","mockz.cpp"],"flags":["-fno-access-control"]}
//@run {"prop":"P06","entry":"h_json","bounds":"JSON document (its text form left out): any integers (reals: fixed samples), vectors of 0..2 entries with any integer contents, byte arrays of 0..2 any bytes plain and encoded, shared vectors","reach":["json"],"shard":[["size",0,2]]}
#include "vh.h"
#include <vector>
#include <fstream>
#include <map>
#include <nlohmann/json.hpp>
#include "DNDS/MPI.hpp"
#include "DNDS/SerializerJSON.hpp"
namespace DNDS::VH {
using namespace Serializer;
static void json()
{
    int k = vh_concretize(vh_int("size", 0, 2));
    bool codec = vh_concretize(vh_int("codec", 0, 1));
    int i = vh_int("i", -1000000, 1000000);
    index x = vh_int("x", -(1L << 62), 1L << 62);
    real r = -0.1;
    std::vector<index> vi;
    std::vector<rowsize> vr;
    std::vector<real> vd;
    std::vector<uint8_t> vb;
    auto sa = std::make_shared<std::vector<index>>(), sb = std::make_shared<std::vector<index>>();
    auto ra = std::make_shared<std::vector<rowsize>>();
    for (int j = 0; j < k; j++)
        vi.push_back(vh_int("vi", -(1L << 62), 1L << 62)), vr.push_back(vh_int("vr", -100000, 100000)), vd.push_back(j + 0.1), vb.push_back(vh_int("vb", 0, 255)),
            sa->push_back(vh_int("sa", -1000, 1000)), sb->push_back(vh_int("sb", -1000, 1000)), ra->push_back(vh_int("ra", -1000, 1000));
    auto &w = *new SerializerJSON, &q = *new SerializerJSON;
    w.SetUseCodecOnUint8(codec);
    w.reading = false, w.cP = "";
    w.CreatePath("a"), w.GoToPath("a");
    w.WriteInt("i", i), w.WriteIndex("x", x), w.WriteReal("r", r), w.WriteString("s", k ? "text" : "");
    w.CreatePath("b"), w.GoToPath("b");
    w.WriteIndexVector("vi", vi, ArrayGlobalOffset_Parts), w.WriteRowsizeVector("vr", vr, ArrayGlobalOffset_Parts), w.WriteRealVector("vd", vd, ArrayGlobalOffset_Parts), w.WriteUint8Array("vb", vb.data(), k, ArrayGlobalOffset_Parts);
    w.WriteSharedIndexVector("s1", sa, ArrayGlobalOffset_Parts), w.WriteSharedIndexVector("s2", sb, ArrayGlobalOffset_Parts), w.WriteSharedRowsizeVector("s4", ra, ArrayGlobalOffset_Parts);
    w.GoToPath("/a");
    w.WriteSharedIndexVector("s3", sa, ArrayGlobalOffset_Parts), w.WriteSharedRowsizeVector("s5", ra, ArrayGlobalOffset_Parts);
    w.WriteInt("late", 5);
    q.jObj = w.jObj, q.reading = true, q.cP = "";
    int i2 = 0;
    index x2 = 0, nb = -1;
    real r2 = 0;
    std::string s2 = "?";
    std::vector<index> vi2(1);
    std::vector<rowsize> vr2(1);
    std::vector<real> vd2(1);
    std::vector<uint8_t> vb2;
    auto o = ArrayGlobalOffset_Unknown;
    q.GoToPath("a");
    q.ReadInt("i", i2), q.ReadIndex("x", x2), q.ReadReal("r", r2), q.ReadString("s", s2);
    vh_assert(i2 == i && x2 == x, "integers are read back");
    vh_assert(r2 == r, "a real is read back");
    vh_assert(s2 == (k ? "text" : ""), "a string is read back");
    q.ReadInt("late", i2);
    vh_assert(i2 == 5, "values added later under the same path");
    q.GoToPath("b");
    vh_assert(q.GetCurrentPath() == "/a/b", "the current path");
    q.ReadIndexVector("vi", vi2, o), q.ReadRowsizeVector("vr", vr2, o), q.ReadRealVector("vd", vd2, o);
    q.ReadUint8Array("vb", nullptr, nb, o);
    vh_assert((int)vi2.size() == k && (int)vr2.size() == k && (int)vd2.size() == k && nb == k, "vectors are read back with their sizes");
    vb2.resize(nb), q.ReadUint8Array("vb", vb2.data(), nb, o);
    if (k == 0) { uint8_t none; q.ReadUint8Array("vb", &none, nb, o); }
    for (int j = 0; j < k; j++)
    {
        vh_assert(vi2[j] == vi[j] && vr2[j] == vr[j] && vb2[j] == vb[j], "integer vectors and bytes are read back");
        vh_assert(vd2[j] == vd[j], "real vectors are read back");
    }
    ssp<std::vector<index>> t1, t2, t3;
    ssp<std::vector<rowsize>> t4, t5;
    {
        ssp<std::vector<index>> t;
        q.ReadSharedIndexVector("s1", t, o), t1 = t;
        t = std::make_shared<std::vector<index>>(7);
    }
    q.ReadSharedIndexVector("s2", t2, o), q.ReadSharedRowsizeVector("s4", t4, o);
    q.GoToPath("/a");
    q.ReadSharedIndexVector("s3", t3, o), q.ReadSharedRowsizeVector("s5", t5, o);
    vh_assert(*t1 == *sa && *t2 == *sb && *t3 == *sa && *t4 == *ra && *t5 == *ra, "shared vectors are read back");
    vh_assert(t1 == t3 && t1 != t2 && t4 == t5, "sharing is read back");
    // one object, one document after another
    q.CloseFile();
    vh_assert(q.jObj.empty(), "closing forgets the document");
    q.reading = false, q.cP = "";
    q.CreatePath("z"), q.GoToPath("z");
    q.WriteSharedIndexVector("s3", sb, ArrayGlobalOffset_Parts), q.WriteSharedRowsizeVector("s5", ra, ArrayGlobalOffset_Parts);
    auto doc = q.jObj;
    q.reading = true, q.CloseFile();
    q.jObj = doc, q.reading = false, q.cP = "";
    q.CreatePath("y"), q.GoToPath("y");
    q.WriteSharedIndexVector("s1", sb, ArrayGlobalOffset_Parts), q.WriteSharedRowsizeVector("s5", ra, ArrayGlobalOffset_Parts);
    auto doc2 = q.jObj;
    q.reading = true, q.CloseFile();
    ssp<std::vector<index>> u1, u2;
    ssp<std::vector<rowsize>> u3, u4;
    q.jObj = doc2, q.jObj.erase("z"), q.reading = true, q.cP = "";
    q.GoToPath("y"), q.ReadSharedIndexVector("s1", u1, o), q.ReadSharedRowsizeVector("s5", u3, o);
    vh_assert(*u1 == *sb && *u3 == *ra && u1 != t2, "a second document has its own shared vectors");
    vh_reach("json");
}
}
VH_ENTRY h_json() { DNDS::VH::json(); }
