"""helpers of the corpus generators"""
class G:
    def __init__(self, pre="X"):
        self.k, self.pre = 0, pre
    def ty(self, code, name=None):
        """print a type definition; @ is the new name"""
        self.k += 1
        S = name or "%s%d" % (self.pre, self.k)
        print(code.replace("@", S))
        return S
    def st(self, name, fields, body, n=None, tl="", der="Nom", extra=None, enum=False, bits=None):
        """a struct with these fields (or an enum) and the harnesses comparing it with the oracle"""
        self.k += 1
        S = "%s%d" % (self.pre, self.k)
        lt = "<'a>" if "&'a" in fields or "<'a" in fields else ""
        pe = "" if bits else ", PartialEq"
        der = "#[allow(dead_code, unused_variables)] #[derive(%s%s)] %s" % (der, pe, tl)
        if enum:
            print("%s pub enum %s%s { %s }" % (der, S, lt, fields))
        elif fields == "":
            print("%s pub struct %s;" % (der, S))
        elif fields.startswith("("):
            print("%s pub struct %s%s%s;" % (der, S, lt, fields))
        else:
            print("%s pub struct %s%s { %s }" % (der, S, lt, fields))
        if bits:  # compare floats by bit pattern: (float fields, other fields)
            print("impl PartialEq for %s { fn eq(&self, o: &Self) -> bool { %s } }" % (S, " && ".join(["self.%s.to_bits() == o.%s.to_bits()" % (f, f) for f in bits[0]] + ["self.%s == o.%s" % (f, f) for f in bits[1]])))
        nm = name + ("_n%d" % n if n else "")
        body = body.replace("@", S)
        if extra:
            print("hx!(%s, %s%s, |a, b| (%s), |r, e| { %s });" % (nm, S, lt, extra, body))
        else:
            print("t!(%s, %s%s, |r, e| { %s });" % (nm, S, lt, body))
        return S
