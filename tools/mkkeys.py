import json
from cryptojwt.jwk.rsa import new_rsa_key
from cryptojwt.jwk.ec import new_ec_key
res = {}
for owner in ["op0", "op1", "op2", "rp", "evil"]:
    res[owner + "_rsa"] = new_rsa_key(use="sig", kid=owner + "r").serialize(private=True)
    for crv, n in [("P-256", "ec256"), ("P-384", "ec384"), ("P-521", "ec521")]:
        res[owner + "_" + n] = new_ec_key(crv, use="sig", kid=owner + n).serialize(private=True)
    res[owner + "_rsaenc"] = new_rsa_key(use="enc", kid=owner + "e").serialize(private=True)
    res[owner + "_ecenc"] = new_ec_key("P-256", use="enc", kid=owner + "ee").serialize(private=True)
json.dump(res, open("lib/keys.json", "w"), indent=0)
