From ac70a3a0f271290f7584a86b2266d96727808899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 01/87] fix: use a configured client_secret for signatures also
 when RPHandler set the client keys

RPHandler.init_client replaces the client's own keys, among them the symmetric key made from
client_secret, so HMAC signed ID Tokens were refused and client_secret_jwt had no key.
---
 src/oidcrp/client_auth.py     | 1 +
 src/oidcrp/service.py         | 3 +++
 src/oidcrp/service_context.py | 8 ++++++++
 3 files changed, 12 insertions(+)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 2a480bb..e49798f 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -565,6 +565,7 @@ class ClientSecretJWT(JWSAuthnMethod):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
     def get_signing_key_from_keyjar(self, algorithm, service_context):
+        service_context.load_client_secret()
         return service_context.keyjar.get_signing_key(alg2keytype(algorithm), alg=algorithm)
 
 
diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index c4726a5..04a1b02 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -531,6 +531,9 @@ class Service(ImpExp):
 
         LOGGER.debug('response format: %s', sformat)
 
+        # Responses may be signed with the client secret
+        self.client_get("service_context").load_client_secret()
+
         if sformat in ['jose', 'jws', 'jwe']:
             resp = self.post_parse_response(info, state=state)
 
diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index f68f81c..dbfa257 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -264,6 +264,14 @@ class ServiceContext(OidcContext):
                     _bundle = KeyBundle(source=url)
                     self.keyjar.add_kb(iss, _bundle)
 
+    def load_client_secret(self):
+        """
+        Make sure that the client secret can be used as a symmetric key.
+        The client's own keys may have been replaced since the client secret was set.
+        """
+        if self.client_secret and not self.keyjar.get_signing_key('oct', ''):
+            self.keyjar.add_symmetric('', self.client_secret)
+
     def get_sign_alg(self, typ):
         """
 
-- 
2.43.0


From c14e5d6b85e3bde3426fde464afeb0446403c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 02/87] fix: register an implicit callback for response_type
 'code id_token'

---
 src/oidcrp/oidc/registration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 06a3ea9..5611238 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -125,7 +125,7 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
         # code and/or implicit
         if _in_config_or_client_preferences(context.config, "response_types", "code"):
             _uris['code'] = True
-        for rt in ["id_token", "id_token token", "code id_token token", "code idtoken",
+        for rt in ["id_token", "id_token token", "code id_token token", "code id_token",
                    "code token"]:
             if _in_config_or_client_preferences(context.config, "response_types", rt):
                 _uris["implicit"] = True
-- 
2.43.0


From 8e0a0026aece602865a7d3c6004fe28b118dd174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 03/87] fix: refuse a response whose verification returns False

---
 src/oidcrp/service.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 04a1b02..9b743a3 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -7,6 +7,7 @@ from urllib.parse import urlparse
 
 from cryptojwt.jwt import JWT
 from cryptojwt.utils import qualified_name
+from oidcmsg.exception import VerificationError
 from oidcmsg.impexp import ImpExp
 from oidcmsg.item import DLDict
 from oidcmsg.message import Message
@@ -566,7 +567,9 @@ class Service(ImpExp):
             LOGGER.debug("Verify response with %s", vargs)
             try:
                 # verify the message. If something is wrong an exception is thrown
-                resp.verify(**vargs)
+                # or False returned
+                if resp.verify(**vargs) is False:
+                    raise VerificationError('Response verification failed')
             except Exception as err:
                 LOGGER.error(
                     'Got exception while verifying response: %s', err)
-- 
2.43.0


From da5bf57f566ca3a2d527c15aa11fc6c868c613cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 04/87] fix: finalize a login where neither an ID Token nor the
 user info has a subject

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 6d42ced..ede2a8f 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -809,7 +809,7 @@ class RPHandler(object):
 
         if _id_token:
             _context.state.store_sub2state(_id_token['sub'], _state)
-        else:
+        elif 'sub' in inforesp:
             _context.state.store_sub2state(inforesp['sub'], _state)
 
         return {
-- 
2.43.0


From 2cad2244d4e79c1615c3a6105921670cc5df953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 05/87] fix: StateInterface.remove_state removes exactly what
 belongs to the state

It failed when the state had no cross references or one of them had been rebound and
removed since, removed references bound to another state and left older ones dangling.
---
 src/oidcrp/state_interface.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index bfc7100..91fbff0 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -249,10 +249,12 @@ class StateInterface(ImpExp):
             _val = None
 
         if _val is None:
-            refs = {xtyp: value}
+            refs = {xtyp: [value]}
         else:
             refs = json.loads(_val)
-            refs[xtyp] = value
+            _values = refs.setdefault(xtyp, [])
+            if value not in _values:
+                _values.append(value)
         self._db["ref{}ref".format(state)] = json.dumps(refs)
 
     def get_state_by_x(self, value, xtyp):
@@ -382,7 +384,12 @@ class StateInterface(ImpExp):
         :param state: Key to the state
         """
         del self._db[state]
-        refs = json.loads(self._db.get("ref{}ref".format(state)))
+        refs = self._db.get("ref{}ref".format(state))
         if refs:
-            for xtyp, _val in refs.items():
-                del self._db[KEY_PATTERN[xtyp].format(_val)]
+            del self._db["ref{}ref".format(state)]
+            for xtyp, _values in json.loads(refs).items():
+                for _val in _values:
+                    _key = KEY_PATTERN[xtyp].format(_val)
+                    # May have been bound to another state since
+                    if self._db.get(_key) == state:
+                        del self._db[_key]
-- 
2.43.0


From d431724f01e8596dfb483dab2f95d0cddc3eca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 06/87] fix: RPHandler.client_setup keeps the client, and its
 sessions, of a known issuer

Clients were stored under the issuer but looked up by the name or user the login was
started with, so every login started by a configuration name, by user identifier, or by an issuer
spelled with/without the trailing slash replaced the client and lost its open sessions.
---
 src/oidcrp/rp_handler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index ede2a8f..a2d6c00 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -330,11 +330,13 @@ class RPHandler(object):
 
             logger.debug("Connecting to previously unknown OP")
             temporary_client = self.do_webfinger(user)
+            iss_id = temporary_client.client_get("service_context").get('issuer')
         else:
             temporary_client = None
 
+        # iss_id can be another name for the issuer
         try:
-            client = self.issuer2rp[iss_id]
+            client = self.issuer2rp[self.hash2issuer.get(iss_id, iss_id)]
         except KeyError:
             if temporary_client:
                 client = temporary_client
@@ -345,12 +347,18 @@ class RPHandler(object):
             return client
 
         logger.debug("Get provider info")
-        issuer = self.do_provider_info(client, behaviour_args=behaviour_args)
+        self.do_provider_info(client, behaviour_args=behaviour_args)
 
         logger.debug("Do client registration")
         self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
 
-        self.issuer2rp[issuer] = client
+        # The same issuer ID as is stored with the sessions
+        _issuer = client.client_get("service_context").get('issuer')
+        if _issuer in self.issuer2rp and iss_id not in self.client_configs:
+            # Known by another name
+            client = self.issuer2rp[_issuer]
+        else:
+            self.issuer2rp[_issuer] = client
         return client
 
     def _get_response_type(self, context, req_args: Optional[dict] = None):
-- 
2.43.0


From 2d30aa3247a4fd6e37d7e7c0022a3a5e7c90b130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 07/87] fix: a refresh response does not discard the token
 response of the login

It was stored on top of the token response, so the ID Token (authentication status, logout hint)
and, when not rotated, the refresh token were lost after a refresh.
---
 src/oidcrp/oauth2/refresh_access_token.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index 4b5efa6..5cc8af1 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -2,6 +2,8 @@
 import logging
 
 from oidcmsg import oauth2
+from oidcmsg import verified_claim_name
+from oidcmsg.message import Message
 from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import time_sans_frac
 
@@ -30,7 +32,18 @@ class RefreshAccessToken(Service):
     def update_service_context(self, resp, key='', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+        # What isn't replaced by the refresh remains valid
+        _keep = []
+        if 'refresh_token' not in resp:
+            _keep.append('refresh_token')
+        if 'id_token' not in resp:
+            _keep.extend(['id_token', verified_claim_name('id_token')])
+
+        _state = self.client_get("service_context").state
+        _item = _state.multiple_extend_request_args({}, key, _keep, ['refresh_token_response'],
+                                                    orig=True)
+        _item.update(resp)
+        _state.store_item(Message(**_item), 'refresh_token_response', key)
 
     def oauth_pre_construct(self, request_args=None, **kwargs):
         """Preconstructor of request arguments"""
-- 
2.43.0


From b8a208f4ce8882a2e63d75a00fd38d043851fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 08/87] fix: verify an ID Token received at a refresh like the
 first one and for the same subject

---
 src/oidcrp/oidc/refresh_access_token.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index d6af5a3..f65c954 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -1,6 +1,8 @@
 from oidcmsg import oidc
+from oidcmsg.oidc import verified_claim_name
 
 from oidcrp.oauth2 import refresh_access_token
+from oidcrp.oidc import access_token
 
 
 class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
@@ -8,6 +10,18 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
     response_cls = oidc.AccessTokenResponse
     error_msg = oidc.ResponseMessage
 
+    # An ID Token is verified as it is when received with the first access token
+    gather_verify_arguments = access_token.AccessToken.gather_verify_arguments
+
+    def post_parse_response(self, response, state='', **kwargs):
+        _name = verified_claim_name('id_token')
+        if _name in response:
+            _args = self.client_get("service_context").state.multiple_extend_request_args(
+                {}, state, [_name], ['auth_response', 'token_response', 'refresh_token_response'])
+            if _name in _args and _args[_name]['sub'] != response[_name]['sub']:
+                raise ValueError('Incorrect "sub" value')
+        return response
+
     def get_authn_method(self):
         try:
             return self.client_get("service_context").behaviour['token_endpoint_auth_method']
-- 
2.43.0


From 601d49d3fb7b81491f4e813f36c3caaf002c4a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 09/87] fix: RPHandler.get_user_info uses the stored access
 token when none is given

---
 src/oidcrp/rp_handler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index a2d6c00..03f0ef1 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -602,6 +602,7 @@ class RPHandler(object):
             _arg = client.client_get("service_context").state.multiple_extend_request_args(
                 {}, state, ['access_token'],
                 ['auth_response', 'token_response', 'refresh_token_response'])
+            access_token = _arg['access_token']
 
         request_args = {'access_token': access_token}
 
-- 
2.43.0


From d2a3e0498ff269aee13b88190c902b966e40960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 10/87] fix: claims sources never replace the subject and
 unusable ones add nothing

---
 src/oidcrp/oidc/__init__.py | 7 +++++--
 src/oidcrp/oidc/userinfo.py | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/oidc/__init__.py b/src/oidcrp/oidc/__init__.py
index df9db5e..d218e6f 100755
--- a/src/oidcrp/oidc/__init__.py
+++ b/src/oidcrp/oidc/__init__.py
@@ -163,8 +163,10 @@ class RP(oauth2.Client):
                             'HTTP error {}: {}'.format(_resp.status_code,
                                                        _resp.reason))
 
+                    # The subject is never provided by another source
                     claims = [value for value, src in
-                              userinfo["_claim_names"].items() if src == csrc]
+                              userinfo["_claim_names"].items() if
+                              src == csrc and value != 'sub']
 
                     if set(claims) != set(_uinfo.keys()):
                         logger.warning(
@@ -173,6 +175,7 @@ class RP(oauth2.Client):
 
                     # only add those I expected
                     for key in claims:
-                        userinfo[key] = _uinfo[key]
+                        if key in _uinfo:
+                            userinfo[key] = _uinfo[key]
 
         return userinfo
diff --git a/src/oidcrp/oidc/userinfo.py b/src/oidcrp/oidc/userinfo.py
index 6c93b80..a619ece 100644
--- a/src/oidcrp/oidc/userinfo.py
+++ b/src/oidcrp/oidc/userinfo.py
@@ -2,6 +2,7 @@ import logging
 from typing import Optional
 from typing import Union
 
+from cryptojwt.exception import IssuerNotFound
 from oidcmsg import oidc
 from oidcmsg.exception import MissingSigningKey
 from oidcmsg.message import Message
@@ -86,17 +87,19 @@ class UserInfo(Service):
                         aggregated_claims = Message().from_jwt(
                             spec["JWT"].encode("utf-8"),
                             keyjar=_context.keyjar)
-                    except MissingSigningKey as err:
+                    except (MissingSigningKey, IssuerNotFound) as err:
                         logger.warning(
                             'Error encountered while unpacking aggregated '
                             'claims'.format(err))
                     else:
+                        # The subject is never provided by another source
                         claims = [value for value, src in
                                   response["_claim_names"].items() if
-                                  src == csrc]
+                                  src == csrc and value != 'sub']
 
                         for key in claims:
-                            response[key] = aggregated_claims[key]
+                            if key in aggregated_claims:
+                                response[key] = aggregated_claims[key]
                 elif 'endpoint' in spec:
                     _info = {
                         "headers": self.get_authn_header(
-- 
2.43.0


From 93d858c97c6a85b97e30a0615bc62ca5af0061e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 11/87] fix: select a signing algorithm that the client
 authentication method can use

---
 src/oidcrp/client_auth.py | 55 +++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index e49798f..aec1471 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -395,6 +395,16 @@ class JWSAuthnMethod(ClientAuthnMethod):
             raise AuthnFailure("Missing algorithm specification")
         return algorithm
 
+    @staticmethod
+    def usable_algorithms(algorithms):
+        """
+        The signing algorithms that can be used by this method, in order of preference.
+
+        :param algorithms: List of signing algorithms
+        :return: List of signing algorithms
+        """
+        return algorithms
+
     @staticmethod
     def get_signing_key_from_keyjar(algorithm, service_context):
         """
@@ -454,23 +464,25 @@ class JWSAuthnMethod(ClientAuthnMethod):
         # audience for the signed JWT depends on which endpoint
         # we're talking to.
         if 'authn_endpoint' in kwargs and kwargs['authn_endpoint'] in ['token_endpoint']:
-            reg_resp = context.registration_response
-            if reg_resp:
-                algorithm = reg_resp["token_endpoint_auth_signing_alg"]
-            else:
-                algorithm = context.client_preferences.get("token_endpoint_auth_signing_alg")
-                if algorithm is None:
-                    _pi = context.provider_info
-                    try:
-                        algs = _pi["token_endpoint_auth_signing_alg_values_supported"]
-                    except KeyError:
-                        algorithm = "RS256"  # default
-                    else:
-                        for alg in algs:  # pick the first one I support and have keys for
-                            if alg in SIGNER_ALGS and self.get_signing_key_from_keyjar(alg,
-                                                                                       context):
-                                algorithm = alg
-                                break
+            for _info in [context.registration_response, context.client_preferences,
+                          context.behaviour]:
+                if _info:
+                    algorithm = _info.get("token_endpoint_auth_signing_alg")
+                    if algorithm:
+                        break
+
+            if not algorithm:
+                _pi = context.provider_info
+                try:
+                    algs = _pi["token_endpoint_auth_signing_alg_values_supported"]
+                except KeyError:
+                    algorithm = "RS256"  # default
+                else:
+                    # pick the first one I support and have keys for
+                    for alg in self.usable_algorithms(algs):
+                        if alg in SIGNER_ALGS and self.get_signing_key_from_keyjar(alg, context):
+                            algorithm = alg
+                            break
 
             audience = context.provider_info['token_endpoint']
         else:
@@ -564,6 +576,11 @@ class ClientSecretJWT(JWSAuthnMethod):
     def choose_algorithm(self, context="client_secret_jwt", **kwargs):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
+    @staticmethod
+    def usable_algorithms(algorithms):
+        # The client secret can only be used together with the HMAC algorithms
+        return sorted(algorithms, key=lambda alg: not alg.startswith("HS"))
+
     def get_signing_key_from_keyjar(self, algorithm, service_context):
         service_context.load_client_secret()
         return service_context.keyjar.get_signing_key(alg2keytype(algorithm), alg=algorithm)
@@ -577,6 +594,10 @@ class PrivateKeyJWT(JWSAuthnMethod):
     def choose_algorithm(self, context="private_key_jwt", **kwargs):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
+    @staticmethod
+    def usable_algorithms(algorithms):
+        return [alg for alg in algorithms if not alg.startswith("HS")]
+
     def get_signing_key_from_keyjar(self, algorithm, service_context=None):
         return service_context.keyjar.get_signing_key(alg2keytype(algorithm), "", alg=algorithm)
 
-- 
2.43.0


From 594fbd61acf41c6829e97259ce20a0931d9fd818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 12/87] fix: HTTP Basic credentials use the standard base64
 alphabet

---
 src/oidcrp/client_auth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index aec1471..e1a9891 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -79,7 +79,7 @@ class ClientSecretBasic(ClientAuthnMethod):
 
     The upshot of this is to construct an Authorization header that has the
     value 'Basic <token>' where <token> is username and password concatenated
-    together with a ':' in between and then URL safe base64 encoded.
+    together with a ':' in between and then base64 encoded.
 
     Note that both username and password
     """
@@ -118,7 +118,7 @@ class ClientSecretBasic(ClientAuthnMethod):
         user = self._get_user(service, **kwargs)
 
         credentials = "{}:{}".format(quote_plus(user), quote_plus(passwd))
-        return base64.urlsafe_b64encode(credentials.encode("utf-8")).decode("utf-8")
+        return base64.b64encode(credentials.encode("utf-8")).decode("utf-8")
 
     @staticmethod
     def _with_or_without_client_id(request, service):
-- 
2.43.0


From e16edc6b28b7416aa2b4e787f03acb492a0625df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 13/87] fix: using a bearer token does not change the message
 class

---
 src/oidcrp/client_auth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index e1a9891..0019d48 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -260,7 +260,8 @@ def find_token(request, token_type, service, **kwargs):
         else:
             del request[token_type]
             # Required under certain circumstances :-) not under other
-            request.c_param[token_type] = SINGLE_OPTIONAL_STRING
+            # That only goes for this request, not for the message class
+            request.c_param = dict(request.c_param, **{token_type: SINGLE_OPTIONAL_STRING})
             return _token
 
     try:
-- 
2.43.0


From 8047cdf0650062e5a5b60226005887ebd16c8d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 14/87] fix: a refresh request is authenticated like other
 requests to the token endpoint

---
 src/oidcrp/oauth2/refresh_access_token.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index 5cc8af1..8c03e7f 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -21,7 +21,7 @@ class RefreshAccessToken(Service):
     endpoint_name = 'token_endpoint'
     synchronous = True
     service_name = 'refresh_token'
-    default_authn_method = 'bearer_header'
+    default_authn_method = 'client_secret_basic'
     http_method = 'POST'
 
     def __init__(self, client_get, client_authn_factory=None, conf=None):
-- 
2.43.0


From 6ee40772e5b12b1afdf0e41f62a7685cd753ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 15/87] fix: use the system's cryptographically secure source
 of randomness

---
 src/oidcrp/util.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 17e0d51..808fa9a 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -6,6 +6,7 @@ import io
 import json
 import logging
 import os
+from random import SystemRandom
 import ssl
 import string
 import sys
@@ -18,12 +19,6 @@ from oidcmsg.exception import UnSupported
 from oidcmsg.oauth2 import is_error_message
 import yaml
 
-# Since SystemRandom is not available on all systems
-try:
-    import SystemRandom as rnd
-except ImportError:
-    import random as rnd
-
 from oidcrp.defaults import BASECHR
 from oidcrp.exception import ConfigurationError
 from oidcrp.exception import OidcServiceError
@@ -38,6 +33,9 @@ logger = logging.getLogger(__name__)
 
 __author__ = 'roland'
 
+# Uses the randomness provided by the operating system
+rnd = SystemRandom()
+
 DEFAULT_POST_CONTENT_TYPE = URL_ENCODED
 
 PAIRS = {
-- 
2.43.0


From 133ccdadad87925cf5cebfb2343d7bb9b9608a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 16/87] fix: a replaced client secret is no longer used

---
 src/oidcrp/oidc/registration.py |  2 ++
 src/oidcrp/service_context.py   | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 5611238..b45f7c5 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -281,6 +281,8 @@ class Registration(Service):
                 )
             _client_secret = resp.get("client_secret")
             if _client_secret:
+                # A secret that is replaced must not be used anymore
+                _context.unload_client_secret(['', _client_id])
                 _context.client_secret = _client_secret
                 _context.keyjar.add_symmetric('', _client_secret)
                 _context.keyjar.add_symmetric(_client_id, _client_secret)
diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index dbfa257..54d8a3f 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -272,6 +272,24 @@ class ServiceContext(OidcContext):
         if self.client_secret and not self.keyjar.get_signing_key('oct', ''):
             self.keyjar.add_symmetric('', self.client_secret)
 
+    def unload_client_secret(self, owners):
+        """
+        Remove the key that is made from the client secret.
+
+        :param owners: The owners who's keys are affected
+        """
+        if not self.client_secret:
+            return
+
+        _secret = as_bytes(self.client_secret)
+        for owner in owners:
+            if owner not in self.keyjar:
+                continue
+            for _bundle in self.keyjar[owner].get_bundles():
+                for _key in _bundle.keys():
+                    if _key.kty == 'oct' and as_bytes(_key.key) == _secret:
+                        _bundle.remove(_key)
+
     def get_sign_alg(self, typ):
         """
 
-- 
2.43.0


From a0ad260b5ecf8d69fff53a3b44eeb209703dd7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 17/87] fix: a provider without DPoP support gets requests
 without a proof

---
 src/oidcrp/oauth2/add_on/dpop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 13981e1..f125007 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -102,7 +102,7 @@ def dpop_header(service_context: ServiceContext,
     dpop_key = service_context.add_on['dpop'].get('key')
 
     if not dpop_key:
-        algs_supported = provider_info["dpop_signing_alg_values_supported"]
+        algs_supported = provider_info.get("dpop_signing_alg_values_supported")
         if not algs_supported:  # does not support DPoP
             return headers
 
-- 
2.43.0


From 2cc865743d988864c209a18a2c1ad6bdb1e90620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 18/87] fix: a DPoP proof names the endpoint without query part

---
 src/oidcrp/oauth2/add_on/dpop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index f125007..170536e 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -1,4 +1,5 @@
 from typing import Optional
+from urllib.parse import urlsplit
 import uuid
 
 from cryptojwt.jwk.jwk import key_from_jwk_dict
@@ -126,7 +127,8 @@ def dpop_header(service_context: ServiceContext,
         "jwk": dpop_key.serialize(),
         "jti": uuid.uuid4().hex,
         "htm": http_method,
-        "htu": provider_info[service_endpoint],
+        # without query and fragment parts
+        "htu": urlsplit(provider_info[service_endpoint])._replace(query='', fragment='').geturl(),
         "iat": utc_time_sans_frac()
     }
 
-- 
2.43.0


From 8f11f55cf267cffe07d841e819ccbcbcb603219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 19/87] fix: DPoP with any of the RSA algorithms

---
 src/oidcrp/oauth2/add_on/dpop.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 170536e..24f8ceb 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -6,6 +6,7 @@ from cryptojwt.jwk.jwk import key_from_jwk_dict
 from cryptojwt.jws.jws import JWS
 from cryptojwt.jws.jws import factory
 from cryptojwt.key_bundle import key_by_alg
+from cryptojwt.key_bundle import key_gen
 from oidcmsg.message import Message
 from oidcmsg.message import SINGLE_REQUIRED_INT
 from oidcmsg.message import SINGLE_REQUIRED_JSON
@@ -117,7 +118,10 @@ def dpop_header(service_context: ServiceContext,
             return headers
 
         # Mint a new key
-        dpop_key = key_by_alg(chosen_alg)
+        if chosen_alg.startswith(("RS", "PS")):  # key_by_alg only knows of RS256
+            dpop_key = key_gen("RSA", alg=chosen_alg)
+        else:
+            dpop_key = key_by_alg(chosen_alg)
         service_context.add_on['dpop']['key'] = dpop_key
         service_context.add_on['dpop']['alg'] = chosen_alg
 
-- 
2.43.0


From 0c9b041983bb20adcb10a3b64ddaa6ae43350b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 20/87] fix: encrypt a request object for the provider when
 only the algorithms are configured

---
 src/oidcrp/oidc/authorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 5845640..cd97048 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -196,7 +196,8 @@ class Authorization(authorization.Authorization):
 
         _req = make_openid_request(req, **_mor_args)
 
-        # Should the request be encrypted
+        # Should the request be encrypted, then it's for the provider
+        kwargs.setdefault("target", kwargs['recv'])
         _req = request_object_encryption(_req, _context, **kwargs)
 
         if request_param == "request":
-- 
2.43.0


From 9e49ae956266c21d08c7f5f375410255382504fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 21/87] fix: a pushed request object is signed as configured
 and names client and provider

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 4fd1058..376c76c 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -22,8 +22,11 @@ def push_authorization(request_args, service, **kwargs):
     if method_args["body_format"] == "urlencoded":
         _body = request_args.to_urlencoded()
     else:
-        _jwt = JWT(key_jar=_context.keyjar, iss=_context.base_url)
-        _jws = _jwt.pack(request_args.to_dict())
+        _context.load_client_secret()
+        _jwt = JWT(key_jar=_context.keyjar, iss=_context.client_id,
+                   sign_alg=method_args["signing_algorithm"])
+        _jws = _jwt.pack(request_args.to_dict(),
+                         recv=_context.provider_info.get("issuer", _context.issuer))
 
         _msg = Message(request=_jws)
         if method_args["merge_rule"] == "lax":
-- 
2.43.0


From b3eaae35590d458132aeeb1368e5a75aebe6afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 22/87] fix: a strictly pushed authorization request can be
 sent and 201 means pushed

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 376c76c..044334e 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -2,12 +2,19 @@ import logging
 
 from cryptojwt import JWT
 from oidcmsg.message import Message
+from oidcmsg.message import OPTIONAL_LIST_OF_SP_SEP_STRINGS
 from oidcmsg.oauth2 import JWTSecuredAuthorizationRequest
 import requests
 
 logger = logging.getLogger(__name__)
 
 
+class PushedAuthorizationReference(JWTSecuredAuthorizationRequest):
+    """An authorization request where only the client_id and the reference are required."""
+    c_param = JWTSecuredAuthorizationRequest.c_param.copy()
+    c_param["response_type"] = OPTIONAL_LIST_OF_SP_SEP_STRINGS
+
+
 def push_authorization(request_args, service, **kwargs):
     """
     :param request_args: All the request arguments as a AuthorizationRequest instance
@@ -40,9 +47,10 @@ def push_authorization(request_args, service, **kwargs):
         _context.provider_info["pushed_authorization_request_endpoint"], data=_body
     )
 
-    if resp.status_code == 200:
+    if resp.status_code in (200, 201):
         _resp = Message().from_json(resp.text)
-        _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
+        _req = PushedAuthorizationReference(request_uri=_resp["request_uri"],
+                                            client_id=request_args.get("client_id"))
         if method_args["merge_rule"] == "lax":
             for param in request_args.required_parameters():
                 _req[param] = request_args.get(param)
-- 
2.43.0


From 2c913b967de3e28674cf2c77f47293a8a6e28f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 23/87] fix: references to request objects on a registered URL
 tell the objects apart

---
 src/oidcrp/oidc/authorization.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index cd97048..820c17f 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -1,7 +1,10 @@
+import hashlib
 import logging
+import os
 from typing import Optional
 from typing import Union
 
+from cryptojwt.utils import b64e
 from oidcmsg import oauth2
 from oidcmsg import oidc
 from oidcmsg.exception import MissingRequiredAttribute
@@ -150,10 +153,17 @@ class Authorization(authorization.Authorization):
         """
         _context = self.client_get("service_context")
         try:
-            _webname = _context.registration_response['request_uris'][0]
+            _webname = _context.registration_response['request_uris'][0].split('#')[0]
             filename = _context.filename_from_webname(_webname)
         except KeyError:
             filename, _webname = construct_request_uri(**kwargs)
+        else:
+            # What's on this URL changes between requests hence the hash of the content must be
+            # part of the reference. See section 6.2 of OpenID Connect Core.
+            _hash = hashlib.sha256(req.encode('utf-8')).digest()
+            _webname = '{}#{}'.format(_webname, b64e(_hash).decode('utf-8'))
+            if os.path.dirname(filename):
+                os.makedirs(os.path.dirname(filename), exist_ok=True)
 
         fid = open(filename, mode="w")
         fid.write(req)
-- 
2.43.0


From d12758579678928e7f94e069d1dea214a8d06e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 24/87] fix: keep parameters without value in an endpoint URL

---
 src/oidcrp/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 808fa9a..b2f352b 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -111,7 +111,7 @@ def get_http_url(url, req, method='GET'):
             _req = req.copy()
             comp = urlsplit(str(url))
             if comp.query:
-                _req.update(parse_qs(comp.query))
+                _req.update(parse_qs(comp.query, keep_blank_values=True))
 
             _query = str(_req.to_urlencoded())
             return urlunsplit((comp.scheme, comp.netloc, comp.path,
-- 
2.43.0


From 45ca762eac58c1dfaff4bf9d8b1111011b32f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 25/87] fix: a nonce is needed for every response type with
 code or id_token

---
 src/oidcrp/oidc/authorization.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 820c17f..fadaa5f 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -26,6 +26,18 @@ __author__ = 'Roland Hedberg'
 LOGGER = logging.getLogger(__name__)
 
 
+def response_type_values(response_type):
+    """
+    The values, like 'code' or 'id_token', a response type is composed of.
+
+    :param response_type: A string or a list of strings
+    :return: A list of strings
+    """
+    if not isinstance(response_type, str):
+        response_type = ' '.join(response_type)
+    return response_type.split()
+
+
 class Authorization(authorization.Authorization):
     msg_type = oidc.AuthorizationRequest
     response_cls = oidc.AuthorizationResponse
@@ -86,15 +98,15 @@ class Authorization(authorization.Authorization):
         if request_args is None:
             request_args = {}
 
-        try:
-            _response_types = [request_args["response_type"]]
-        except KeyError:
+        if "response_type" not in request_args:
             _response_types = _context.behaviour.get('response_types')
             if _response_types:
                 request_args["response_type"] = _response_types[0]
             else:
                 request_args["response_type"] = "code"
 
+        _response_type = response_type_values(request_args["response_type"])
+
         # For OIDC 'openid' is required in scope
         if 'scope' not in request_args:
             request_args['scope'] = _context.behaviour.get("scope", ["openid"])
@@ -103,7 +115,7 @@ class Authorization(authorization.Authorization):
 
         # 'code' and/or 'id_token' in response_type means an ID Roken
         # will eventually be returnedm, hence the need for a nonce
-        if "code" in _response_types or "id_token" in _response_types:
+        if "code" in _response_type or "id_token" in _response_type:
             if "nonce" not in request_args:
                 request_args["nonce"] = rndstr(32)
 
@@ -225,7 +237,7 @@ class Authorization(authorization.Authorization):
         """
         _context = self.client_get("service_context")
         if 'openid' in req['scope']:
-            _response_type = req['response_type'][0]
+            _response_type = response_type_values(req['response_type'])
             if 'id_token' in _response_type or 'code' in _response_type:
                 _context.state.store_nonce2state(req['nonce'], req['state'])
 
-- 
2.43.0


From b0084db269be4784b039573fef7ebc64371cc32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 26/87] fix: constructing a request never changes the caller's
 arguments or scopes

---
 src/oidcrp/oidc/authorization.py | 9 +++++++--
 src/oidcrp/service.py            | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index fadaa5f..0370ad7 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -110,8 +110,13 @@ class Authorization(authorization.Authorization):
         # For OIDC 'openid' is required in scope
         if 'scope' not in request_args:
             request_args['scope'] = _context.behaviour.get("scope", ["openid"])
-        elif 'openid' not in request_args['scope']:
-            request_args['scope'].append('openid')
+
+        # A new list, what's given belongs to the caller or the configuration
+        _scope = request_args['scope']
+        _scope = _scope.split() if isinstance(_scope, str) else list(_scope)
+        if 'openid' not in _scope:
+            _scope.append('openid')
+        request_args['scope'] = _scope
 
         # 'code' and/or 'id_token' in response_type means an ID Roken
         # will eventually be returnedm, hence the need for a nonce
diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 9b743a3..3bbc8e2 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -200,8 +200,8 @@ class Service(ImpExp):
         :param kwargs: extra keyword arguments
         :return: message class instance
         """
-        if request_args is None:
-            request_args = {}
+        # The modifiers must not change what the caller provided
+        request_args = {} if request_args is None else request_args.copy()
 
         # run the pre_construct methods. Will return a possibly new
         # set of request arguments but also a set of arguments to
-- 
2.43.0


From 39e1ae0cdeed0d49090009f01c5ac757dcb75a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 27/87] fix: the redirect URI matches the response type also
 when that is configured, configuration stays as it was

---
 src/oidcrp/rp_handler.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 03f0ef1..7dad2b6 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -1,3 +1,4 @@
+import copy
 from inspect import currentframe
 import logging
 import sys
@@ -158,7 +159,7 @@ class RPHandler(object):
         try:
             _cnf = self.pick_config(issuer)
         except KeyError:
-            _cnf = self.pick_config('')
+            _cnf = self.pick_config('').copy()
             _cnf['issuer'] = issuer
 
         try:
@@ -362,10 +363,11 @@ class RPHandler(object):
         return client
 
     def _get_response_type(self, context, req_args: Optional[dict] = None):
-        if req_args:
-            return req_args.get("response_type", context.get('behaviour')['response_types'][0])
-        else:
-            return context.get('behaviour')['response_types'][0]
+        if req_args and "response_type" in req_args:
+            return req_args["response_type"]
+
+        _response_types = context.get('behaviour').get('response_types')
+        return _response_types[0] if _response_types else 'code'
 
     def init_authorization(self,
                            client: Optional[Client] = None,
@@ -394,25 +396,25 @@ class RPHandler(object):
 
         _context = client.client_get("service_context")
 
+        # What the caller wants goes before what's configured
+        _req_args = copy.deepcopy(dict(_context.config.get("request_args") or {}))
+        if 'claims' in _req_args:
+            _req_args["claims"] = Claims(**_req_args["claims"])
+        if req_args is not None:
+            _req_args.update(req_args)
+
         _nonce = rndstr(24)
-        _response_type = self._get_response_type(_context, req_args)
+        _response_type = self._get_response_type(_context, _req_args)
         request_args = {
             'redirect_uri': pick_redirect_uri(_context,
-                                              request_args=req_args,
+                                              request_args=_req_args,
                                               response_type=_response_type),
-            'scope': _context.get('behaviour')['scope'],
             'response_type': _response_type,
             'nonce': _nonce
         }
-
-        _req_args = _context.config.get("request_args")
-        if _req_args:
-            if 'claims' in _req_args:
-                _req_args["claims"] = Claims(**_req_args["claims"])
-            request_args.update(_req_args)
-
-        if req_args is not None:
-            request_args.update(req_args)
+        if 'scope' in _context.get('behaviour'):
+            request_args['scope'] = _context.get('behaviour')['scope']
+        request_args.update(_req_args)
 
         # Need a new state for a new authorization request
         _state = _context.state.create_state(_context.get('issuer'))
-- 
2.43.0


From bf75901cabd9ff6752fb3a52f0e942be5e9fc004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 28/87] fix: creating and using a client leaves service
 definitions and configuration as they were

---
 src/oidcrp/service.py         | 7 ++-----
 src/oidcrp/service_context.py | 3 ++-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 3bbc8e2..9ff09c2 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -628,11 +628,8 @@ def init_services(service_definitions, client_get, client_authn_factory=None):
     """
     service = DLDict()
     for service_name, service_configuration in service_definitions.items():
-        try:
-            kwargs = service_configuration['kwargs']
-        except KeyError:
-            kwargs = {}
-
+        # The definitions may be used for more than one client
+        kwargs = dict(service_configuration.get('kwargs', {}))
         kwargs.update({
             'client_get': client_get,
             'client_authn_factory': client_authn_factory
diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 54d8a3f..bcba6d3 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -147,7 +147,8 @@ class ServiceContext(OidcContext):
         # Dynamic information
         for param in ['client_secret', 'client_id', 'redirect_uris', 'provider_info',
                       'behaviour', 'callback', 'issuer']:
-            _val = config.get(param, _def_value[param])
+            # Will change over time, which the configuration must not
+            _val = copy.deepcopy(config.get(param, _def_value[param]))
             self.set(param, _val)
             if param == 'client_secret' and _val:
                 self.keyjar.add_symmetric('', _val)
-- 
2.43.0


From 83f1d77260d79b031a60537da316882b557e4e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 29/87] fix: registration leaves the caller's request arguments
 as they were

---
 src/oidcrp/rp_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 7dad2b6..8bfd624 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -279,8 +279,8 @@ class RPHandler(object):
         #     _context.callback["post_logout_redirect_uri"] = [self.base_url]
 
         if not client.get_client_id():  # means I have to do dynamic client registration
-            if request_args is None:
-                request_args = {}
+            # What's provided by the caller is left as it is
+            request_args = {} if request_args is None else request_args.copy()
 
             if behaviour_args:
                 _params = RegistrationRequest().parameters()
-- 
2.43.0


From 4a0ded772f4d0ae71c6f28b418a9c398ea8a7778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 30/87] fix: a configured request argument with the value zero
 is used

---
 src/oidcrp/service.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 9ff09c2..bc0f589 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -113,19 +113,14 @@ class Service(ImpExp):
             if prop in ar_args:
                 continue
 
-            val = _context.get(prop)
-            if not val:
-                if "request_args" in self.conf:
-                    val = self.conf['request_args'].get(prop)
-                if not val:
-                    val = _context.register_args.get(prop)
-                    if not val:
-                        val = self.default_request_args.get(prop)
-                        if not val:
-                            val = _context.behaviour.get(prop)
-
-            if val:
-                ar_args[prop] = val
+            for source in (_context, self.conf.get('request_args') or {},
+                           _context.register_args, self.default_request_args,
+                           _context.behaviour):
+                val = source.get(prop)
+                # Zero, like in max_age=0, is a value
+                if val or (val == 0 and val is not False):
+                    ar_args[prop] = val
+                    break
 
         return ar_args
 
-- 
2.43.0


From 55af59adcb33c67346c1d2d16bb25750dbbc952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 31/87] fix: adopt nothing from a provider whose information
 isn't accepted, a mismatch must be allowed

---
 src/oidcrp/oauth2/provider_info_discovery.py | 14 ++++++--------
 src/oidcrp/oidc/provider_info_discovery.py   |  4 +++-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/oidcrp/oauth2/provider_info_discovery.py b/src/oidcrp/oauth2/provider_info_discovery.py
index 4aa4033..1ca0f9d 100644
--- a/src/oidcrp/oauth2/provider_info_discovery.py
+++ b/src/oidcrp/oauth2/provider_info_discovery.py
@@ -66,9 +66,7 @@ class ProviderInfoDiscovery(Service):
 
         # In some cases we can live with the two URLs not being
         # the same. But this is an excepted that has to be explicit
-        try:
-            self.client_get("service_context").allow['issuer_mismatch']
-        except KeyError:
+        if not self.client_get("service_context").allow.get('issuer_mismatch'):
             if _issuer != _pcr_issuer:
                 raise OidcServiceError(
                     "provider info issuer mismatch '%s' != '%s'" % (
@@ -105,11 +103,6 @@ class ProviderInfoDiscovery(Service):
         else:  # No prior knowledge
             _pcr_issuer = _context.issuer
 
-        _context.issuer = _pcr_issuer
-        _context.provider_info = resp
-
-        self._set_endpoints(resp)
-
         # If I already have a Key Jar then I'll add then provider keys to
         # that. Otherwise a new Key Jar is minted
         try:
@@ -126,5 +119,10 @@ class ProviderInfoDiscovery(Service):
 
         _context.keyjar = _keyjar
 
+        _context.issuer = _pcr_issuer
+        _context.provider_info = resp
+
+        self._set_endpoints(resp)
+
     def update_service_context(self, resp, **kwargs):
         return self._update_service_context(resp)
diff --git a/src/oidcrp/oidc/provider_info_discovery.py b/src/oidcrp/oidc/provider_info_discovery.py
index 230ce27..395942c 100644
--- a/src/oidcrp/oidc/provider_info_discovery.py
+++ b/src/oidcrp/oidc/provider_info_discovery.py
@@ -81,8 +81,10 @@ class ProviderInfoDiscovery(provider_info_discovery.ProviderInfoDiscovery):
 
     def update_service_context(self, resp, **kwargs):
         _context = self.client_get("service_context")
-        self._update_service_context(resp)
+        # Nothing is adopted from a provider that isn't acceptable
+        self._verify_issuer(resp, _context.issuer)
         self.match_preferences(resp, _context.issuer)
+        self._update_service_context(resp)
         if 'pre_load_keys' in self.conf and self.conf['pre_load_keys']:
             _jwks = _context.keyjar.export_jwks_as_json(
                 issuer=resp['issuer'])
-- 
2.43.0


From 99771ff3fdbd7081c046050dba1fb00e17776f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 32/87] fix: a preference the provider can't match is never
 silently left out or replaced

---
 src/oidcrp/oidc/provider_info_discovery.py | 42 +++++++++-------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/src/oidcrp/oidc/provider_info_discovery.py b/src/oidcrp/oidc/provider_info_discovery.py
index 395942c..42f601a 100644
--- a/src/oidcrp/oidc/provider_info_discovery.py
+++ b/src/oidcrp/oidc/provider_info_discovery.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 from oidcmsg import oidc
@@ -110,7 +111,7 @@ class ProviderInfoDiscovery(provider_info_discovery.ProviderInfoDiscovery):
 
         regreq = oidc.RegistrationRequest
 
-        _behaviour = _context.behaviour
+        _behaviour = copy.copy(_context.behaviour)
 
         for _pref, _prov in PREFERENCE2PROVIDER.items():
             try:
@@ -131,34 +132,23 @@ class ProviderInfoDiscovery(provider_info_discovery.ProviderInfoDiscovery):
                             _pref))
                     _pvals = vals
 
+            if isinstance(_pvals, str):
+                _pvals = [_pvals]
+
             if isinstance(vals, str):
-                if vals in _pvals:
-                    _behaviour[_pref] = vals
+                _match = vals if vals in _pvals else None
             else:
-                try:
-                    vtyp = regreq.c_param[_pref]
-                except KeyError:
-                    # Allow non standard claims
-                    if isinstance(vals, list):
-                        _behaviour[_pref] = [v for v in vals if v in _pvals]
-                    elif vals in _pvals:
-                        _behaviour[_pref] = vals
-                else:
-                    if isinstance(vtyp[0], list):
-                        _behaviour[_pref] = []
-                        for val in vals:
-                            if val in _pvals:
-                                _behaviour[_pref].append(
-                                    val)
-                    else:
-                        for val in vals:
-                            if val in _pvals:
-                                _behaviour[_pref] = val
-                                break
-
-            if _pref not in _behaviour:
+                _match = [v for v in vals if v in _pvals]
+                # Non standard claims can have more than one value
+                if _pref in regreq.c_param and not isinstance(regreq.c_param[_pref][0], list):
+                    _match = _match[0] if _match else None
+
+            # What may have been used before doesn't count
+            if not _match:
                 raise ConfigurationError("OP couldn't match preference:%s" % _pref, pcr)
 
+            _behaviour[_pref] = _match
+
         for key, val in _context.client_preferences.items():
             if key in _behaviour:
                 continue
@@ -174,5 +164,5 @@ class ProviderInfoDiscovery(provider_info_discovery.ProviderInfoDiscovery):
             if key not in PREFERENCE2PROVIDER:
                 _behaviour[key] = val
 
-        _context.behaviour= _behaviour
+        _context.behaviour = _behaviour
         logger.debug('service_context behaviour: {}'.format(_behaviour))
-- 
2.43.0


From 0c7c7618e7234edc8e618310cf8492cd3a79dece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 33/87] fix: a redirect or an error status without error
 message is never taken for a successful response

---
 src/oidcrp/oauth2/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 2ee8fa3..e0a3e31 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -176,7 +176,13 @@ class Client(Entity):
             response = self.get_response(service, url, method, body, response_body_type, headers,
                                          **kwargs)
 
-        if 'error' in response:
+        if isinstance(response, dict) and 'http_response' in response:
+            # A redirect, so there is nothing in it that should be recorded. Not expected when
+            # the information is in the HTTP response.
+            if service.synchronous and response_body_type != 'html':
+                raise OidcServiceError("HTTP ERROR: unexpected redirect [%s] on %s" % (
+                    response['http_response'].status_code, url))
+        elif 'error' in response:
             pass
         else:
             try:
@@ -260,6 +266,11 @@ class Client(Entity):
             except JSONDecodeError:  # So it's not JSON assume text then
                 err_resp = {'error': reqresp.text}
 
+            # Whatever else there may be in it, it's not a success
+            if not is_error_message(err_resp):
+                raise OidcServiceError("HTTP ERROR: %s [%s] on %s" % (
+                    reqresp.text, reqresp.status_code, reqresp.url))
+
             err_resp['status_code'] = reqresp.status_code
             return err_resp
         else:
-- 
2.43.0


From 22871a7cbb03eea949689a3e50e52b0575deffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 34/87] fix: callback URIs are derived from the handler's hash
 seed

---
 src/oidcrp/rp_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 8bfd624..7efbdcc 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -185,6 +185,9 @@ class RPHandler(object):
 
         _context.base_url = self.base_url
         _context.jwks_uri = self.jwks_uri
+        if not _cnf.get('hash_seed'):
+            # All clients of a handler use the handler's seed
+            _context.hash_seed = self.hash_seed
         return client
 
     def do_provider_info(self,
-- 
2.43.0


From 8dbeadca8396f4f13258350ad0124984503f6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 35/87] fix: without a jwks_uri the client's public keys are
 announced by value

---
 src/oidcrp/rp_handler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 7efbdcc..8322823 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -64,10 +64,9 @@ class RPHandler(object):
             self.jwks_uri = add_path(base_url, _jwks_path)
         else:
             self.jwks_uri = ""
-            if len(self.keyjar):
-                self.jwks = self.keyjar.export_jwks()
-            else:
-                self.jwks = {}
+            # Only what's public is announced
+            _keys = [k for k in self.keyjar.export_jwks()['keys'] if k['kty'] != 'oct']
+            self.jwks = {'keys': _keys} if _keys else {}
 
         if state_db:
             self.state_db = state_db
@@ -185,6 +184,8 @@ class RPHandler(object):
 
         _context.base_url = self.base_url
         _context.jwks_uri = self.jwks_uri
+        if not self.jwks_uri:
+            _context.jwks = self.jwks
         if not _cnf.get('hash_seed'):
             # All clients of a handler use the handler's seed
             _context.hash_seed = self.hash_seed
-- 
2.43.0


From b59bc19f0e72deee5186d24c2f010bfc7a201416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 36/87] fix: configured or requested callback URIs survive the
 registration and are the ones used

---
 src/oidcrp/oauth2/utils.py      | 13 ++++++++++---
 src/oidcrp/oidc/registration.py | 15 ++++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/oauth2/utils.py b/src/oidcrp/oauth2/utils.py
index d1c4038..d571013 100644
--- a/src/oidcrp/oauth2/utils.py
+++ b/src/oidcrp/oauth2/utils.py
@@ -45,11 +45,18 @@ def pick_redirect_uri(context,
         _response_mode = request_args.get('response_mode')
 
         if _response_mode == 'form_post' or response_type == ["form_post"]:
-            redirect_uri = context.callback['form_post']
+            _type = 'form_post'
         elif response_type == 'code' or response_type == ["code"]:
-            redirect_uri = context.callback['code']
+            _type = 'code'
         else:
-            redirect_uri = context.callback['implicit']
+            _type = 'implicit'
+
+        if context.callback.get('redirect_uris') and not any(
+                _cb in context.callback for _cb in ['code', 'implicit', 'form_post']):
+            # The redirect URIs that were registered are not response type specific
+            redirect_uri = context.callback['redirect_uris'][0]
+        else:
+            redirect_uri = context.callback[_type]
 
         logger.debug(
             f"pick_redirect_uris: response_type={response_type}, response_mode={_response_mode}, "
diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index b45f7c5..104662b 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -123,8 +123,10 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
 
     if "redirect_uris" not in ignore:
         # code and/or implicit
-        if _in_config_or_client_preferences(context.config, "response_types", "code"):
-            _uris['code'] = True
+        _response_types = (_cp or {}).get("response_types") or context.config.get("response_types")
+        if not _response_types or _in_config_or_client_preferences(context.config,
+                                                                   "response_types", "code"):
+            _uris['code'] = True  # code is the default
         for rt in ["id_token", "id_token token", "code id_token token", "code id_token",
                    "code token"]:
             if _in_config_or_client_preferences(context.config, "response_types", rt):
@@ -150,6 +152,9 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
                 context.config, "backchannel_logout_usable", True):
             _uris["backchannel_logout_uri"] = True
 
+    # What's configured is kept
+    _configured = {k: v for k, v in (context.get('callback') or {}).items() if context.config.get(k)}
+
     callbacks = create_callbacks(_iss,
                                  hash_seed=context.get('hash_seed'),
                                  base_url=context.get("base_url"),
@@ -159,6 +164,7 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
     if "redirect_uris" not in ignore:
         _redirect_uris = [v for k, v in callbacks.items() if k in ["code", "implicit", "form_post"]]
         callbacks["redirect_uris"] = _redirect_uris
+    callbacks.update(_configured)
     context.set('callback', callbacks)
 
 
@@ -181,7 +187,10 @@ def add_callback_uris(request_args=None, service=None, **kwargs):
     add_callbacks(_context, ignore=_ignore)
     for _key in CALLBACK_URIS:
         _req_val = request_args.get(_key)
-        if not _req_val:
+        if _req_val:
+            # What's registered is what's going to be used
+            _context.callback[_key] = _req_val
+        else:
             _uri = _context.register_args.get(_key)
             if not _uri:
                 _uri = _context.callback.get(_key)
-- 
2.43.0


From 24c7083322d3c2a8ba00654d227cd50c63c0706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 37/87] fix: preferred grant types are announced together with
 the implied ones

---
 src/oidcrp/oidc/registration.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 104662b..b7afd51 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -263,10 +263,14 @@ class Registration(Service):
 
     def oidc_post_construct(self, request_args=None, **kwargs):
         try:
-            request_args['grant_types'] = response_types_to_grant_types(
-                request_args['response_types'])
+            _implied = response_types_to_grant_types(request_args['response_types'])
         except KeyError:
             pass
+        else:
+            # Those that are preferred, like refresh_token, and those the response types need
+            _grant_types = list(request_args.get('grant_types') or [])
+            request_args['grant_types'] = _grant_types + [
+                gt for gt in sorted(_implied) if gt not in _grant_types]
 
         # If a Client can use jwks_uri, it MUST NOT use jwks.
         if 'jwks_uri' in request_args and 'jwks' in request_args:
-- 
2.43.0


From 7e1cd20571ca5c6ec08649670ae84cb13199bde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 38/87] fix: a new registration replaces the former secret,
 expiry and management token completely

---
 src/oidcrp/oidc/registration.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index b7afd51..5b4e5fa 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -292,19 +292,13 @@ class Registration(Service):
                     _context.keyjar.export_jwks(True, ''),
                     issuer_id=_client_id
                 )
-            _client_secret = resp.get("client_secret")
+            # A secret that is replaced must not be used anymore
+            _context.unload_client_secret(['', _client_id])
+            _client_secret = resp.get("client_secret", '')
+            _context.client_secret = _client_secret
+            _context.client_secret_expires_at = resp.get("client_secret_expires_at", 0)
             if _client_secret:
-                # A secret that is replaced must not be used anymore
-                _context.unload_client_secret(['', _client_id])
-                _context.client_secret = _client_secret
                 _context.keyjar.add_symmetric('', _client_secret)
                 _context.keyjar.add_symmetric(_client_id, _client_secret)
-                try:
-                    _context.client_secret_expires_at = resp["client_secret_expires_at"]
-                except KeyError:
-                    pass
 
-        try:
-            _context.registration_access_token = resp["registration_access_token"]
-        except KeyError:
-            pass
+        _context.registration_access_token = resp.get("registration_access_token", '')
-- 
2.43.0


From 75ebfd41f12773356e632c3f81a815cd24b0a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 39/87] fix: no form_post callback is made when the redirect
 URIs are given

---
 src/oidcrp/oidc/registration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 5b4e5fa..49087c8 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -133,7 +133,7 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
                 _uris["implicit"] = True
                 break
 
-    if "form_post" not in ignore:
+    if "form_post" not in ignore and "redirect_uris" not in ignore:
         if _in_config_or_client_preferences(context.config, "form_post_usable", True):
             _uris["form_post"] = True
 
-- 
2.43.0


From c70b7104640668143a54aabccc6fb10ec47eb6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 40/87] fix: a plain http link isn't accepted because of the
 case of the scheme

---
 src/oidcrp/oidc/webfinger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/webfinger.py b/src/oidcrp/oidc/webfinger.py
index a442a36..29e24a1 100644
--- a/src/oidcrp/oidc/webfinger.py
+++ b/src/oidcrp/oidc/webfinger.py
@@ -58,7 +58,7 @@ class WebFinger(Service):
                     except KeyError:
                         _http_allowed = False
 
-                    if _href.startswith('http://') and not _http_allowed:
+                    if _href.strip().lower().startswith('http://') and not _http_allowed:
                         raise ValueError(
                             'http link not allowed ({})'.format(_href))
 
-- 
2.43.0


From e4ed3c264d20346381710108d2b8658b548e8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 41/87] fix: a provider found by WebFinger is used with the
 configuration for that provider

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 8322823..74dc021 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -343,7 +343,7 @@ class RPHandler(object):
         try:
             client = self.issuer2rp[self.hash2issuer.get(iss_id, iss_id)]
         except KeyError:
-            if temporary_client:
+            if temporary_client and iss_id not in self.client_configs:
                 client = temporary_client
             else:
                 logger.debug("Creating new client: %s", iss_id)
-- 
2.43.0


From 9ae1d0a2303179d44c7de7ebeff380a8bcb45912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 42/87] fix: a tampered encrypted cookie is refused with
 InvalidCookieSign

---
 src/oidcrp/cookie.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 7ece2ef..c5d2f2a 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -7,8 +7,8 @@ import os
 import sys
 import time
 
+from cryptography.exceptions import InvalidTag
 from cryptography.hazmat.primitives.ciphers.aead import AESGCM
-from cryptojwt.jwe.exception import JWEException
 from cryptojwt.jwe.utils import split_ctx_and_tag
 from cryptojwt.utils import as_bytes
 from cryptojwt.utils import as_unicode
@@ -235,9 +235,12 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     elif len(parts) == 4:
         # encrypted and signed
         timestamp = parts[0]
-        iv = base64.b64decode(parts[1])
-        ciphertext = base64.b64decode(parts[2])
-        tag = base64.b64decode(parts[3])
+        try:
+            iv = base64.b64decode(parts[1])
+            ciphertext = base64.b64decode(parts[2])
+            tag = base64.b64decode(parts[3])
+        except ValueError:
+            raise InvalidCookieSign()
         ct = ciphertext + tag
 
         # Make sure the key is 32-Bytes long
@@ -249,7 +252,7 @@ def parse_cookie(name, seed, kaka, enc_key=None):
         aad = timestamp.encode('utf-8')
         try:
             cleartext = aesgcm.decrypt(iv, ct, aad)
-        except JWEException:
+        except (InvalidTag, ValueError):
             raise InvalidCookieSign()
         return cleartext.decode('utf-8'), timestamp
     return None
-- 
2.43.0


From b20fa024b75cfd7fd48e0eb7e6ebfbf312ed78b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 43/87] fix: a cookie seed can be any byte string

---
 src/oidcrp/cookie.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index c5d2f2a..15171b5 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -221,8 +221,6 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     if not kaka:
         return None
 
-    seed = as_unicode(seed)
-
     parts = cookie_parts(name, kaka)
     if parts is None:
         return None
-- 
2.43.0


From d822c40fe69ca0c57fc77b1a28797719b2e7cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 44/87] fix: where the value of a cookie ends is part of what's
 signed, the value may contain the separator

---
 src/oidcrp/cookie.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 15171b5..a0f3dcd 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -28,6 +28,10 @@ CORS_HEADERS = [
 ]
 
 
+# Separates the parts of a cookie
+SEPARATOR = "|"
+
+
 class InvalidCookieSign(Exception):
     pass
 
@@ -175,7 +179,7 @@ def make_cookie(name, load, seed, expire=0, domain="", path="", timestamp="",
     else:
         cookie_payload = [
             bytes_load, bytes_timestamp,
-            cookie_signature(seed, load, timestamp).encode('utf-8')]
+            cookie_signature(seed, load, SEPARATOR, timestamp).encode('utf-8')]
 
     cookie[name] = (b"|".join(cookie_payload)).decode('utf-8')
 
@@ -224,11 +228,19 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     parts = cookie_parts(name, kaka)
     if parts is None:
         return None
-    elif len(parts) == 3:
+
+    if not enc_key and len(parts) > 3:
+        # The load may contain the separator
+        parts = [SEPARATOR.join(parts[:-2])] + parts[-2:]
+
+    if len(parts) == 3:
         # verify the cookie signature
         cleartext, timestamp, sig = parts
-        if not verify_cookie_signature(sig, seed, cleartext, timestamp):
-            raise InvalidCookieSign()
+        if not verify_cookie_signature(sig, seed, cleartext, SEPARATOR, timestamp):
+            # Earlier the separator wasn't signed
+            if SEPARATOR in cleartext or not verify_cookie_signature(sig, seed, cleartext,
+                                                                     timestamp):
+                raise InvalidCookieSign()
         return cleartext, timestamp
     elif len(parts) == 4:
         # encrypted and signed
@@ -268,7 +280,7 @@ def cookie_parts(name, kaka):
     cookie_obj = SimpleCookie(as_unicode(kaka))
     morsel = cookie_obj.get(name)
     if morsel:
-        return morsel.value.split("|")
+        return morsel.value.split(SEPARATOR)
     else:
         return None
 
-- 
2.43.0


From 5285f21ce5612cc5c7b3682edee160df8f7586bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 45/87] fix: an application value in a cookie may contain
 double colons

---
 src/oidcrp/cookie.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index a0f3dcd..1660659 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -399,7 +399,8 @@ class CookieDealer(object):
             except (TypeError, AssertionError):
                 return None
             else:
-                value, _ts, typ = info.split("::")
-                if timestamp == _ts:
-                    return value, _ts, typ
+                # The value may contain the separator
+                _parts = info.rsplit("::", 2)
+                if len(_parts) == 3 and timestamp == _parts[1]:
+                    return tuple(_parts)
         return None
-- 
2.43.0


From 54dac258d464d81743ddb2ac6ccc6facb4dc121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 46/87] fix: a logout notification that names a session
 concerns that session

---
 src/oidcrp/rp_handler.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 74dc021..8c94f38 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -986,16 +986,27 @@ def backchannel_logout(client, request='', request_args=None):
     else:
         logger.debug("Request verified OK")
 
-    # Find the subject through 'sid' or 'sub'
+    # Find the session through 'sid' or 'sub'
     sub = req[verified_claim_name('logout_token')].get('sub')
-    sid = None
-    if not sub:
-        sid = req[verified_claim_name('logout_token')].get('sid')
+    sid = req[verified_claim_name('logout_token')].get('sid')
 
     if not sub and not sid:
         raise MessageException('Neither "sid" nor "sub"')
-    elif sub:
-        _state = _context.state.get_state_by_sub(sub)
-    elif sid:
-        _state = _context.state.get_state_by_sid(sid)
+
+    if sid:
+        # A user can have more than one session
+        try:
+            return _context.state.get_state_by_sid(sid)
+        except KeyError:
+            if not sub:
+                raise
+
+    _state = _context.state.get_state_by_sub(sub)
+    if sid:
+        _arg = _context.state.multiple_extend_request_args(
+            {}, _state, ['__verified_id_token'],
+            ['auth_response', 'token_response', 'refresh_token_response'])
+        _id_token = _arg.get('__verified_id_token') or {}
+        if _id_token.get('sid', sid) != sid:
+            raise KeyError('Unknown session id: "{}"'.format(sid))
     return _state
-- 
2.43.0


From eddc90e978abb8ad6ca735f6a81c42007c045e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 47/87] fix: a logout token must be signed, with the configured
 algorithm if there is one

---
 src/oidcrp/rp_handler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 8c94f38..bcb019c 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -970,12 +970,17 @@ def backchannel_logout(client, request='', request_args=None):
         raise MissingRequiredAttribute('logout_token')
 
     _context = client.client_get("service_context")
+    _alg = _context.get('registration_response').get("id_token_signed_response_alg")
+    if not _alg:
+        _alg = _context.get('behaviour').get("id_token_signed_response_alg")
+    if not _alg or _alg == 'none':  # A logout token is always signed
+        _alg = "RS256"
+
     kwargs = {
         'aud': client.get_client_id(),
         'iss': _context.get('issuer'),
         'keyjar': _context.keyjar,
-        'allowed_sign_alg': _context.get('registration_response').get(
-            "id_token_signed_response_alg", "RS256")
+        'allowed_sign_alg': _alg
     }
 
     logger.debug(f"(backchannel_logout) Verifying request using: {kwargs}")
-- 
2.43.0


From 2e7c08b37394dced55322386ad6d384accf9763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 48/87] fix: session IDs are recorded when the provider
 supports them for either kind of logout

---
 src/oidcrp/rp_handler.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index bcb019c..1ba1435 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -805,14 +805,9 @@ class RPHandler(object):
         logger.debug("UserInfo: %s", inforesp)
 
         _context = client.client_get("service_context")
-        try:
-            _sid_support = _context.get('provider_info')['backchannel_logout_session_supported']
-        except KeyError:
-            try:
-                _sid_support = _context.get('provider_info')[
-                    'frontchannel_logout_session_supported']
-            except:
-                _sid_support = False
+        _pi = _context.get('provider_info')
+        _sid_support = _pi.get('backchannel_logout_session_supported') or _pi.get(
+            'frontchannel_logout_session_supported')
 
         if _sid_support and _id_token:
             try:
-- 
2.43.0


From d6505bbd51c7cf23e072b898ff3e7c16128df2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 49/87] fix: an expired logout token is refused

---
 src/oidcrp/rp_handler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 1ba1435..7a02116 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -986,6 +986,12 @@ def backchannel_logout(client, request='', request_args=None):
     else:
         logger.debug("Request verified OK")
 
+    _exp = req[verified_claim_name('logout_token')].get('exp')
+    if _exp is not None:
+        if not isinstance(_exp, (int, float)) or \
+                _exp < utc_time_sans_frac() - _context.get('clock_skew'):
+            raise MessageException('Bogus logout request: expired logout token')
+
     # Find the session through 'sid' or 'sub'
     sub = req[verified_claim_name('logout_token')].get('sub')
     sid = req[verified_claim_name('logout_token')].get('sid')
-- 
2.43.0


From 28ecaef63dfdde151652870f8b262f75081c04b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 50/87] fix: a post logout redirect URI configured as a string
 is used as a whole

---
 src/oidcrp/oidc/end_session.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/oidc/end_session.py b/src/oidcrp/oidc/end_session.py
index df4d2d4..7576665 100644
--- a/src/oidcrp/oidc/end_session.py
+++ b/src/oidcrp/oidc/end_session.py
@@ -56,15 +56,13 @@ class EndSession(Service):
         if 'post_logout_redirect_uri' not in request_args:
             _context = self.client_get("service_context")
             _uri = _context.register_args.get('post_logout_redirect_uris')
+            if not _uri:
+                _uri = _context.callback.get("post_logout_redirect_uris")
             if _uri:
                 if isinstance(_uri, str):
                     request_args['post_logout_redirect_uri'] = _uri
                 else:  # assume list
                     request_args['post_logout_redirect_uri'] = _uri[0]
-            else:
-                _uri = _context.callback.get("post_logout_redirect_uris")
-                if _uri:
-                    request_args['post_logout_redirect_uri'] = _uri[0]
 
         return request_args, {}
 
-- 
2.43.0


From c8201cb942a221e309979f349d52880ccfbbbd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 51/87] fix: preferred post logout redirect URIs are registered

---
 src/oidcrp/oidc/registration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 49087c8..3c62d25 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -186,6 +186,9 @@ def add_callback_uris(request_args=None, service=None, **kwargs):
     _ignore = [k for k in list(request_args.keys()) if k in CALLBACK_URIS]
     add_callbacks(_context, ignore=_ignore)
     for _key in CALLBACK_URIS:
+        if _key not in request_args and _context.client_preferences.get(_key):
+            # Not among what the message class knows about
+            request_args[_key] = _context.client_preferences[_key]
         _req_val = request_args.get(_key)
         if _req_val:
             # What's registered is what's going to be used
-- 
2.43.0


From 0c1989df1628e37ddef0325dbde53dea5551c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 52/87] fix: loading services keeps their configuration and
 add-ons

---
 src/oidcrp/service.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index bc0f589..90a61e1 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -610,6 +610,25 @@ def gather_constructors(service_methods, construct):
                 construct.append(util.importer(func))
 
 
+class Services(DLDict):
+    """
+    The services of one entity.
+    What a service is configured with and the modifiers that are added to it are not part of
+    the dump. Therefor information is, if possible, loaded into the services that are there.
+    """
+
+    def load(self, spec, init_args=None, load_args=None):
+        _unknown = {}
+        for name, (_class, _item) in spec.items():
+            _service = self.db.get(name)
+            if _service is not None and qualified_name(_service.__class__) == _class:
+                _service.load(_item, init_args=init_args, load_args=load_args)
+            else:
+                _unknown[name] = (_class, _item)
+
+        return DLDict.load(self, _unknown, init_args=init_args, load_args=load_args)
+
+
 def init_services(service_definitions, client_get, client_authn_factory=None):
     """
     Initiates a set of services
@@ -621,7 +640,7 @@ def init_services(service_definitions, client_get, client_authn_factory=None):
     :return: A dictionary, with service name as key and the service instance as
         value.
     """
-    service = DLDict()
+    service = Services()
     for service_name, service_configuration in service_definitions.items():
         # The definitions may be used for more than one client
         kwargs = dict(service_configuration.get('kwargs', {}))
-- 
2.43.0


From 3f66090fc49da50730ba14df51b5ffddcd6c70e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 53/87] fix: a client that uses dynamic discovery or
 registration can be dumped as JSON

---
 src/oidcrp/service_context.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index bcba6d3..09685f7 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -9,7 +9,10 @@ import os
 from cryptojwt.jwk.rsa import RSAKey, import_private_rsa_key_from_file
 from cryptojwt.key_bundle import KeyBundle
 from cryptojwt.utils import as_bytes
+from cryptojwt.utils import importer
+from cryptojwt.utils import qualified_name
 from oidcmsg.context import OidcContext
+from oidcmsg.message import Message
 from oidcmsg.oidc import RegistrationRequest
 from oidcmsg.util import rndstr
 
@@ -77,6 +80,22 @@ DEFAULT_VALUE = {
 #     return res
 
 
+def dump_message(item, exclude_attributes=None):
+    """Information that may come from configuration, a dictionary, or from a response."""
+    if isinstance(item, Message):
+        return {"MESSAGE": {"class": qualified_name(item.__class__), "args": item.to_dict()}}
+
+    return copy.deepcopy(item)
+
+
+def load_message(item, **kwargs):
+    if list(item.keys()) == ["MESSAGE"]:
+        _spec = item["MESSAGE"]
+        return importer(_spec["class"])().from_dict(_spec["args"])
+
+    return copy.deepcopy(item)
+
+
 class ServiceContext(OidcContext):
     """
     This class keeps information that a client needs to be able to talk
@@ -113,6 +132,11 @@ class ServiceContext(OidcContext):
         'verify_args': None
     })
 
+    special_load_dump = {
+        'provider_info': {"dump": dump_message, "load": load_message},
+        'registration_response': {"dump": dump_message, "load": load_message}
+    }
+
     def __init__(self, base_url="", keyjar=None, config=None, state=None, **kwargs):
         if config is None:
             config = {}
-- 
2.43.0


From 56842ecd7309d5b7af68fa5f1fd5bdad7e29bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 54/87] fix: a dump includes the JWKS location and the
 registration access token

---
 src/oidcrp/service_context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 09685f7..b4e6299 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -121,10 +121,13 @@ class ServiceContext(OidcContext):
         "hash2issuer": None,
         "httpc_params": None,
         'issuer': None,
+        "jwks": None,
+        "jwks_uri": None,
         "kid": None,
         "post_logout_redirect_uris": None,
         'provider_info': None,
         'redirect_uris': None,
+        "registration_access_token": None,
         "requests_dir": None,
         "register_args": None,
         'registration_response': None,
-- 
2.43.0


From 6acc380569496d5d5ea7159c080d2fa264702bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 55/87] fix: a dump includes the information add-ons store

---
 src/oidcrp/service_context.py | 38 +++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index b4e6299..92f582a 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -4,8 +4,11 @@ common between all the services that are used by OAuth2 client or OpenID Connect
 """
 import copy
 import hashlib
+import json
 import os
 
+from cryptojwt.jwk import JWK
+from cryptojwt.jwk.jwk import key_from_jwk_dict
 from cryptojwt.jwk.rsa import RSAKey, import_private_rsa_key_from_file
 from cryptojwt.key_bundle import KeyBundle
 from cryptojwt.utils import as_bytes
@@ -96,6 +99,25 @@ def load_message(item, **kwargs):
     return copy.deepcopy(item)
 
 
+def dump_add_on(item, exclude_attributes=None):
+    """
+    What add-ons store. Objects that only can come from the configuration, like HTTP clients, are
+    left out.
+    """
+    res = {}
+    for name, info in item.items():
+        res[name] = {}
+        for key, val in info.items():
+            if isinstance(val, JWK):
+                res[name][key] = {"JWK": val.serialize(private=True)}
+            else:
+                try:
+                    res[name][key] = json.loads(json.dumps(val))
+                except TypeError:
+                    pass
+    return res
+
+
 class ServiceContext(OidcContext):
     """
     This class keeps information that a client needs to be able to talk
@@ -136,6 +158,7 @@ class ServiceContext(OidcContext):
     })
 
     special_load_dump = {
+        'add_on': {"dump": dump_add_on},
         'provider_info': {"dump": dump_message, "load": load_message},
         'registration_response': {"dump": dump_message, "load": load_message}
     }
@@ -222,6 +245,21 @@ class ServiceContext(OidcContext):
     def __setitem__(self, key, value):
         setattr(self, key, value)
 
+    def load(self, item, init_args=None, load_args=None):
+        # Objects that aren't part of the dump, are the ones this instance was configured with
+        _add_on = self.add_on
+        OidcContext.load(self, item, init_args=init_args, load_args=load_args)
+        if 'add_on' in item:
+            self.add_on = {name: dict(info) for name, info in _add_on.items()}
+            for name, info in item['add_on'].items():
+                _info = self.add_on.setdefault(name, {})
+                for key, val in info.items():
+                    if isinstance(val, dict) and list(val.keys()) == ["JWK"]:
+                        _info[key] = key_from_jwk_dict(val["JWK"])
+                    else:
+                        _info[key] = copy.deepcopy(val)
+        return self
+
     def filename_from_webname(self, webname):
         """
         A 1<->1 map is maintained between a URL pointing to a file and
-- 
2.43.0


From 7935a91383aca282cd0a215c105d86f3a4eb2051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 56/87] fix: HTTP parameters are not shared with the key jars
 of the clients

---
 src/oidcrp/rp_handler.py      | 6 ++++--
 src/oidcrp/service_context.py | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 7a02116..33e7441 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -99,7 +99,8 @@ class RPHandler(object):
             self.httpc_params = httpc_params
 
         if not self.keyjar.httpc_params:
-            self.keyjar.httpc_params = self.httpc_params
+            # The key jar adds things
+            self.keyjar.httpc_params = copy.deepcopy(self.httpc_params)
 
     def state2issuer(self, state):
         """
@@ -179,7 +180,8 @@ class RPHandler(object):
 
         _context = client.client_get("service_context")
         # If non persistent
-        _context.keyjar.load(self.keyjar.dump())
+        # Nothing that one client does should affect another client
+        _context.keyjar.load(copy.deepcopy(self.keyjar.dump()))
         # If persistent nothings has to be copied
 
         _context.base_url = self.base_url
diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 92f582a..802f311 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -169,6 +169,9 @@ class ServiceContext(OidcContext):
         self.config = config
 
         OidcContext.__init__(self, config, keyjar, entity_id=config.get('client_id', ''))
+        if keyjar is None and config.get('httpc_params'):
+            # The key jar adds things
+            self.keyjar.httpc_params = copy.deepcopy(config['httpc_params'])
         self.state = state or StateInterface()
 
         self.kid = {"sig": {}, "enc": {}}
-- 
2.43.0


From 7ac45ba98d34434f1c6ccf1c3dd438eeee877fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 57/87] fix: client credentials tokens are stored where the
 refresh service looks for them

Without a state the client passes an empty key.
---
 src/oidcrp/oauth2/client_credentials/cc_access_token.py         | 2 +-
 src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/client_credentials/cc_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_access_token.py
index 0bec1bb..b1bf397 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_access_token.py
@@ -24,4 +24,4 @@ class CCAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get('service_context').state.store_item(resp, 'token_response', key)
+        self.client_get('service_context').state.store_item(resp, 'token_response', key or 'cc')
diff --git a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
index 13468a4..964bdd5 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
@@ -22,7 +22,7 @@ class CCRefreshAccessToken(Service):
         self.post_construct.append(self.cc_post_construct)
 
     def cc_pre_construct(self, request_args=None, **kwargs):
-        _state_id = kwargs.get("state", "cc")
+        _state_id = kwargs.get("state") or "cc"
         parameters = ['refresh_token']
         _state_interface = self.client_get("service_context").state
         _args = _state_interface.extend_request_args({}, oauth2.AccessTokenResponse,
-- 
2.43.0


From e99652b32cd17a5cf31251217f78766324f44cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 58/87] fix: keep the client credentials refresh token when a
 refresh does not replace it

---
 .../client_credentials/cc_refresh_access_token.py     | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
index 964bdd5..5bfb307 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
@@ -1,4 +1,5 @@
 from oidcmsg import oauth2
+from oidcmsg.message import Message
 from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import time_sans_frac
 
@@ -52,4 +53,12 @@ class CCRefreshAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+        _key = key or 'cc'
+        # What isn't replaced by the refresh remains valid
+        _state = self.client_get("service_context").state
+        _item = {}
+        if 'refresh_token' not in resp:
+            _item = _state.extend_request_args(_item, oauth2.AccessTokenResponse, 'token_response',
+                                               _key, ['refresh_token'])
+        _item.update(resp)
+        _state.store_item(Message(**_item), 'token_response', _key)
-- 
2.43.0


From 9099414976375c0438f2b869c84bbc11e96ed54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 59/87] fix: client assertions in requests that do not know the
 client_id parameter

The client credentials request is one of those.
---
 src/oidcrp/client_auth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 0019d48..bcfc0c3 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -543,7 +543,8 @@ class JWSAuthnMethod(ClientAuthnMethod):
             pass
 
         # If client_id is not required to be present, remove it.
-        if not request.c_param["client_id"][VREQUIRED]:
+        _spec = request.c_param.get("client_id")
+        if _spec is None or not _spec[VREQUIRED]:
             try:
                 del request["client_id"]
             except KeyError:
-- 
2.43.0


From f1f3b0263f67f2559cec8277711114fcd3f8496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 60/87] fix: use the request arguments returned by the request
 callback

---
 src/oidcrp/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/http.py b/src/oidcrp/http.py
index ef77c49..c5b9ad6 100644
--- a/src/oidcrp/http.py
+++ b/src/oidcrp/http.py
@@ -91,7 +91,7 @@ class HTTPLib(object):
 
         # If I want to modify the request arguments based on URL, method
         # and current arguments I can use this call back function.
-        self.run_req_callback(url, method, kwargs)
+        _kwargs = self.run_req_callback(url, method, _kwargs)
 
         try:
             # Do the request
-- 
2.43.0


From 0a39c921032f3eb376b0a7f8bbf69880fc93fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 61/87] fix: the max-age of a cookie is a number of seconds

---
 src/oidcrp/util.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index b2f352b..a7ce67c 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -10,6 +10,7 @@ from random import SystemRandom
 import ssl
 import string
 import sys
+import time
 from typing import Optional
 from urllib.parse import parse_qs
 from urllib.parse import urlsplit
@@ -206,6 +207,7 @@ def set_cookie(cookiejar, kaka):
 
         std_attr["version"] = 0
         attr = ""
+        max_age = None
         # copy attributes that have values
         try:
             for attr in morsel.keys():
@@ -216,8 +218,13 @@ def set_cookie(cookiejar, kaka):
                         else:
                             std_attr[attr] = morsel[attr]
                 elif attr == "max-age":
-                    if morsel[attr]:
-                        std_attr["expires"] = http2time(morsel[attr])
+                    if morsel[attr] != "":
+                        try:
+                            max_age = int(morsel[attr])
+                        except ValueError:
+                            std_attr["expires"] = http2time(morsel[attr])
+                        else:
+                            std_attr["expires"] = int(time.time()) + max_age
         except TimeFormatError:
             # Ignore cookie
             logger.info(
@@ -232,12 +239,12 @@ def set_cookie(cookiejar, kaka):
         if std_attr["domain"] and std_attr["domain"].startswith("."):
             std_attr["domain_initial_dot"] = True
 
-        if morsel["max-age"] == 0:
+        if max_age is not None and max_age <= 0:
             try:
                 cookiejar.clear(domain=std_attr["domain"],
                                 path=std_attr["path"],
                                 name=std_attr["name"])
-            except ValueError:
+            except (KeyError, ValueError):
                 pass
         else:
             # Fix for Microsoft cookie error
-- 
2.43.0


From 924ea36a368ea33b247fb0eac52101fff7bf748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 62/87] fix: a default must not hide a configured value

---
 src/oidcrp/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index a7ce67c..ecc0a13 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -412,9 +412,11 @@ def has_method(o, name):
 
 
 def lower_or_upper(config, param, default=None):
-    res = config.get(param.lower(), default)
+    res = config.get(param.lower())
     if not res:
-        res = config.get(param.upper(), default)
+        res = config.get(param.upper(), res)
+    if res is None:
+        return default
     return res
 
 
-- 
2.43.0


From 73a684acb325be8967e6db731f107403455e03cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 63/87] fix: fill in domain and port in all the URIs of a
 configuration

The example configurations depend on it.
---
 src/oidcrp/configure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index 800d24f..35ebbca 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -19,11 +19,13 @@ except ImportError:
     from cryptojwt import rndstr as rnd_token
 
 URIS = [
-    "redirect_uris", 'post_logout_redirect_uris', 'frontchannel_logout_uri',
+    "redirect_uris", 'post_logout_redirect_uri', 'post_logout_redirect_uris', 'frontchannel_logout_uri',
     'backchannel_logout_uri', 'issuer', 'base_url']
 
 
 class RPConfiguration(Base):
+    uris = URIS
+
     def __init__(self,
                  conf: Dict,
                  base_path: Optional[str] = '',
@@ -60,6 +62,7 @@ class RPConfiguration(Base):
 
 class Configuration(Base):
     """RP Configuration"""
+    uris = URIS
 
     def __init__(self,
                  conf: Dict,
-- 
2.43.0


From 6005ee1b5d1d1c0aae24c9b15f80594dc4be9f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 64/87] fix: domain and port are used in the order argument,
 configuration and default

---
 src/oidcrp/configure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index 35ebbca..ac0ea5a 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -30,8 +30,8 @@ class RPConfiguration(Base):
                  conf: Dict,
                  base_path: Optional[str] = '',
                  entity_conf: Optional[List[dict]] = None,
-                 domain: Optional[str] = "127.0.0.1",
-                 port: Optional[int] = 80,
+                 domain: Optional[str] = "",
+                 port: Optional[int] = 0,
                  file_attributes: Optional[List[str]] = None,
                  dir_attributes: Optional[List[str]] = None,
                  ):
@@ -74,7 +74,7 @@ class Configuration(Base):
                  dir_attributes: Optional[List[str]] = None,
                  ):
         Base.__init__(self, conf, base_path=base_path, file_attributes=file_attributes,
-                      dir_attributes=dir_attributes)
+                      dir_attributes=dir_attributes, domain=domain, port=port)
 
         log_conf = conf.get('logging')
         if log_conf:
-- 
2.43.0


From ee68331be25b08fab9d789cfe9701f938d24f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 65/87] fix: media types are case insensitive

---
 src/oidcrp/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index ecc0a13..f8164ab 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -280,6 +280,8 @@ def verify_header(reqresp, body_type):
 
     logger.debug('Expected body type: "{}"'.format(body_type))
 
+    # Media types are case insensitive
+    _ctype = _ctype.lower()
     if body_type == "":
         if match_to_("application/json", _ctype) or match_to_(
                 'application/jrd+json', _ctype):
@@ -339,6 +341,8 @@ def get_deserialization_method(reqresp):
         except:
             return 'urlencoded'  # reasonable default ??
 
+    # Media types are case insensitive
+    _ctype = _ctype.lower()
     if match_to_("application/json", _ctype) or match_to_(
             'application/jrd+json', _ctype):
         deser_method = 'json'
-- 
2.43.0


From 15178f87f51c7663ec974f0da14f95856084a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 66/87] fix: session check requests carry the ID Token itself,
 not the repr of its claims

---
 src/oidcrp/oidc/check_id.py      | 3 ++-
 src/oidcrp/oidc/check_session.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/check_id.py b/src/oidcrp/oidc/check_id.py
index 8ef8dd8..d592ff4 100644
--- a/src/oidcrp/oidc/check_id.py
+++ b/src/oidcrp/oidc/check_id.py
@@ -27,5 +27,6 @@ class CheckID(Service):
     def oidc_pre_construct(self, request_args=None, **kwargs):
         request_args = self.client_get("service_context").state.multiple_extend_request_args(
             request_args, kwargs['state'], ['id_token'],
-            ['auth_response', 'token_response', 'refresh_token_response'])
+            ['auth_response', 'token_response', 'refresh_token_response'],
+            orig=True)
         return request_args, {}
diff --git a/src/oidcrp/oidc/check_session.py b/src/oidcrp/oidc/check_session.py
index bf7661a..76367ef 100644
--- a/src/oidcrp/oidc/check_session.py
+++ b/src/oidcrp/oidc/check_session.py
@@ -27,5 +27,6 @@ class CheckSession(Service):
     def oidc_pre_construct(self, request_args=None, **kwargs):
         request_args = self.client_get("service_context").state.multiple_extend_request_args(
             request_args, kwargs['state'], ['id_token'],
-            ['auth_response', 'token_response', 'refresh_token_response'])
+            ['auth_response', 'token_response', 'refresh_token_response'],
+            orig=True)
         return request_args, {}
-- 
2.43.0


From 3344b1c7121753bdfb00c20b7352ff955f5f3e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 67/87] fix: encrypted responses couldn't be decrypted by
 statically configured clients

---
 src/oidcrp/service.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 90a61e1..6fb1a26 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -472,7 +472,9 @@ class Service(ImpExp):
         args['allowed_enc_algs'] = enc_algs['alg']
         args['allowed_enc_encs'] = enc_algs['enc']
         _jwt = JWT(key_jar=_context.keyjar, **args)
-        _jwt.iss = _context.client_id
+        # The client's own keys are always looked at
+        if _context.client_id in _context.keyjar:
+            _jwt.iss = _context.client_id
         return _jwt.unpack(info)
 
     def _do_response(self, info, sformat, **kwargs):
-- 
2.43.0


From ddd0c640b7346e72f6fc9e08658f006ed13a6910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 68/87] fix: logins started at the same time at a new provider
 get the same client

---
 src/oidcrp/rp_handler.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 33e7441..81205c3 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -2,6 +2,7 @@ import copy
 from inspect import currentframe
 import logging
 import sys
+import threading
 import traceback
 from typing import Optional
 
@@ -91,6 +92,8 @@ class RPHandler(object):
         # keep track on which RP instance that serves which OP
         self.issuer2rp = {}
         self.hash2issuer = {}
+        # One client per issuer, also when logins are started at the same time
+        self._setup_lock = {}
         self.httplib = http_lib
 
         if not httpc_params:
@@ -341,6 +344,16 @@ class RPHandler(object):
         else:
             temporary_client = None
 
+        with self._setup_lock.setdefault(iss_id, threading.Lock()):
+            return self._get_client(iss_id, temporary_client, behaviour_args)
+
+    def _get_client(self,
+                    iss_id: str,
+                    temporary_client: Optional[Client] = None,
+                    behaviour_args: Optional[dict] = None) -> Client:
+        """
+        Pick the client that is bound to the issuer. If there is none create one.
+        """
         # iss_id can be another name for the issuer
         try:
             client = self.issuer2rp[self.hash2issuer.get(iss_id, iss_id)]
@@ -361,9 +374,9 @@ class RPHandler(object):
 
         # The same issuer ID as is stored with the sessions
         _issuer = client.client_get("service_context").get('issuer')
-        if _issuer in self.issuer2rp and iss_id not in self.client_configs:
-            # Known by another name
-            client = self.issuer2rp[_issuer]
+        if iss_id not in self.client_configs:
+            # Can already be known by another name
+            client = self.issuer2rp.setdefault(_issuer, client)
         else:
             self.issuer2rp[_issuer] = client
         return client
-- 
2.43.0


From 5e7ff4b287caf802550e880bc80810595ce39eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 69/87] fix: looking for the provider of a login failed while
 another provider was added

---
 src/oidcrp/rp_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 81205c3..20637a3 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -114,7 +114,8 @@ class RPHandler(object):
         :param state: The state value
         :return: An Issuer ID
         """
-        for _rp in self.issuer2rp.values():
+        # Providers may be added in the meantime
+        for _rp in list(self.issuer2rp.values()):
             try:
                 _iss = _rp.client_get("service_context").state.get_iss(state)
             except KeyError:
-- 
2.43.0


From 90764279e8fa1737bf16503c198d0a2a1ac80c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:06 +0000
Subject: [PATCH 70/87] fix: one DPoP key per client, also when the first
 requests are made at the same time

---
 src/oidcrp/oauth2/add_on/dpop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 24f8ceb..b92c4c9 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -122,8 +122,9 @@ def dpop_header(service_context: ServiceContext,
             dpop_key = key_gen("RSA", alg=chosen_alg)
         else:
             dpop_key = key_by_alg(chosen_alg)
-        service_context.add_on['dpop']['key'] = dpop_key
+        # There is only one key, also when requests are constructed at the same time
         service_context.add_on['dpop']['alg'] = chosen_alg
+        dpop_key = service_context.add_on['dpop'].setdefault('key', dpop_key)
 
     header_dict = {
         "typ": "dpop+jwt",
-- 
2.43.0


From 2f45d3a258d5ad6a7a2a24ab52b35c6c6d88eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:02 +0000
Subject: [PATCH 71/87] fix: the HTTP parameters a client is given are also
 used for fetching keys

---
 src/oidcrp/service_context.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 802f311..cad6320 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -169,9 +169,11 @@ class ServiceContext(OidcContext):
         self.config = config
 
         OidcContext.__init__(self, config, keyjar, entity_id=config.get('client_id', ''))
-        if keyjar is None and config.get('httpc_params'):
+        # Keys are fetched the same way as everything else
+        _httpc_params = config.get('httpc_params') or kwargs.get('httpc_params')
+        if keyjar is None and _httpc_params:
             # The key jar adds things
-            self.keyjar.httpc_params = copy.deepcopy(config['httpc_params'])
+            self.keyjar.httpc_params = copy.deepcopy(_httpc_params)
         self.state = state or StateInterface()
 
         self.kid = {"sig": {}, "enc": {}}
-- 
2.43.0


From b8464322d0741318c1ca58e018b90cabf7e235a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:54 +0000
Subject: [PATCH 72/87] fix: the access token for GitHub is not sent in the URL

---
 src/oidcrp/provider/github.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/provider/github.py b/src/oidcrp/provider/github.py
index b6eed08..7d6d989 100644
--- a/src/oidcrp/provider/github.py
+++ b/src/oidcrp/provider/github.py
@@ -28,5 +28,5 @@ class AccessToken(access_token.AccessToken):
 class UserInfo(userinfo.UserInfo):
     response_cls = Message
     error_msg = ResponseMessage
-    default_authn_method = ''
+    default_authn_method = 'bearer_header'
     http_method = 'GET'
-- 
2.43.0


From 8730e06351c7f6d31d99ad1b31091bf7468a87fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 73/87] fix: the ID Tokens of a hybrid login must be about the
 same user

---
 src/oidcrp/oidc/access_token.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/oidcrp/oidc/access_token.py b/src/oidcrp/oidc/access_token.py
index 8a2b215..cb10317 100644
--- a/src/oidcrp/oidc/access_token.py
+++ b/src/oidcrp/oidc/access_token.py
@@ -67,6 +67,16 @@ class AccessToken(access_token.AccessToken):
 
         return kwargs
 
+    def post_parse_response(self, response, state='', **kwargs):
+        # An ID Token received together with the code is about the same user
+        _name = verified_claim_name('id_token')
+        if _name in response:
+            _args = self.client_get("service_context").state.multiple_extend_request_args(
+                {}, state, [_name], ['auth_response'])
+            if _name in _args and _args[_name]['sub'] != response[_name]['sub']:
+                raise ValueError('Incorrect "sub" value')
+        return response
+
     def update_service_context(self, resp, key='', **kwargs):
         _state_interface = self.client_get("service_context").state
         try:
-- 
2.43.0


From bd0eb04fc83ad3a50922532751604e0cd82c484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 74/87] fix: a nonce in an ID Token received at a refresh must
 be that of the login

---
 src/oidcrp/oidc/refresh_access_token.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index f65c954..ab2f3dd 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -16,7 +16,13 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
     def post_parse_response(self, response, state='', **kwargs):
         _name = verified_claim_name('id_token')
         if _name in response:
-            _args = self.client_get("service_context").state.multiple_extend_request_args(
+            _state = self.client_get("service_context").state
+            # A nonce isn't expected but if there is one it must be the right one
+            _nonce = response[_name].get('nonce')
+            if _nonce is not None and _state.get_state_by_nonce(_nonce) != state:
+                raise ValueError('Incorrect "nonce" value')
+
+            _args = _state.multiple_extend_request_args(
                 {}, state, [_name], ['auth_response', 'token_response', 'refresh_token_response'])
             if _name in _args and _args[_name]['sub'] != response[_name]['sub']:
                 raise ValueError('Incorrect "sub" value')
-- 
2.43.0


From d3b5bfb9b820ee720f2e24104483d2810dafc5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:36 +0000
Subject: [PATCH 75/87] fix: don't lose what overlapping operations store for
 the same state

---
 src/oidcrp/state_interface.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index 91fbff0..856e6ce 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -1,5 +1,7 @@
 """A database interface for storing state information."""
+import functools
 import json
+import threading
 
 from oidcmsg.impexp import ImpExp
 from oidcmsg.message import Message
@@ -30,6 +32,19 @@ KEY_PATTERN = {
     'subject id': '=={}=='
 }
 
+_lock = threading.RLock()
+
+
+def one_at_a_time(func):
+    """What is stored for a state is read, extended and written back."""
+
+    @functools.wraps(func)
+    def locked(*args, **kwargs):
+        with _lock:
+            return func(*args, **kwargs)
+
+    return locked
+
 
 class InMemoryStateDataBase:
     """The simplest possible implementation of the state database."""
@@ -98,6 +113,7 @@ class StateInterface(ImpExp):
 
         return State().from_json(_data)
 
+    @one_at_a_time
     def store_item(self, item, item_type, key):
         """
         Store a service response.
@@ -233,6 +249,7 @@ class StateInterface(ImpExp):
 
         return args
 
+    @one_at_a_time
     def store_x2state(self, value, state, xtyp):
         """
         Store the connection between some value (x) and a state value.
@@ -377,6 +394,7 @@ class StateInterface(ImpExp):
         self._db[key] = _state.to_json()
         return key
 
+    @one_at_a_time
     def remove_state(self, state):
         """
         Remove a state.
-- 
2.43.0


From 7145776c7122634454a51068f7e453b3cf2f9a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:10 +0000
Subject: [PATCH 76/87] fix: a logging configuration in a YAML file can be used

yaml.load needs a loader nowadays.
---
 src/oidcrp/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/logging.py b/src/oidcrp/logging.py
index baf1db9..3f2071b 100755
--- a/src/oidcrp/logging.py
+++ b/src/oidcrp/logging.py
@@ -40,7 +40,7 @@ def configure_logging(debug: Optional[bool] = False,
         config_source = 'dictionary'
     elif filename is not None and os.path.exists(filename):
         with open(filename, "rt") as file:
-            config_dict = yaml.load(file)
+            config_dict = yaml.safe_load(file)
         config_source = 'file'
     else:
         config_dict = LOGGING_DEFAULT
-- 
2.43.0


From 659468c74c53662e2c5e2b658dbfbe47925cc6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:10 +0000
Subject: [PATCH 77/87] fix: debug leaves the default and the caller's logging
 configuration as they are

---
 src/oidcrp/logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/logging.py b/src/oidcrp/logging.py
index 3f2071b..5251e59 100755
--- a/src/oidcrp/logging.py
+++ b/src/oidcrp/logging.py
@@ -47,7 +47,8 @@ def configure_logging(debug: Optional[bool] = False,
         config_source = 'default'
 
     if debug:
-        config_dict['root']['level'] = 'DEBUG'
+        # Neither the default nor what the caller gave is changed
+        config_dict = dict(config_dict, root=dict(config_dict.get('root', {}), level='DEBUG'))
 
     dictConfig(config_dict)
     logging.debug("Configured logging using %s", config_source)
-- 
2.43.0


From c30376fe31839ffe121a64059fb6fe8ef2f651b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:15 +0000
Subject: [PATCH 78/87] fix: get_response_type used an attribute clients don't
 have

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 20637a3..0e5a66a 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -495,7 +495,7 @@ class RPHandler(object):
         :param client: A Client instance
         :return: The response_type
         """
-        return client.service_context.get('behaviour')['response_types'][0]
+        return client.client_get("service_context").get('behaviour')['response_types'][0]
 
     @staticmethod
     def get_client_authn_method(client, endpoint):
-- 
2.43.0


From f48d1a0ef1607eaf5bb0e5df1af3d90c2f8e1664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:15 +0000
Subject: [PATCH 79/87] fix: logout says so when there is no end_session
 service

client_get returns None for a service that isn't there.
---
 src/oidcrp/rp_handler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 0e5a66a..db55a1d 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -930,9 +930,8 @@ class RPHandler(object):
         if client is None:
             client = self.get_client_from_session_key(state)
 
-        try:
-            srv = client.client_get('service', 'end_session')
-        except KeyError:
+        srv = client.client_get('service', 'end_session')
+        if srv is None:
             raise OidcServiceError("Does not know how to logout")
 
         if post_logout_redirect_uri:
-- 
2.43.0


From 40287b7b3d9db1b13342bff11595776d39668864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:07 +0000
Subject: [PATCH 80/87] fix: keys that a client is configured to import from
 files or URLs

As documented ('keys': {'url': {<issuer_id>: <jwks_url>}}). The specification was handed over to
init_key_jar, which knows nothing about files and URLs.
---
 src/oidcrp/service_context.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index cad6320..dff55e9 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -168,7 +168,16 @@ class ServiceContext(OidcContext):
             config = {}
         self.config = config
 
-        OidcContext.__init__(self, config, keyjar, entity_id=config.get('client_id', ''))
+        # The name of the attribute used to be keys. Is not key_conf
+        _key_conf = config.get('keys', config.get('key_conf')) or {}
+        # Keys in files or at URLs are imported below
+        _imported = {k: v for k, v in _key_conf.items() if k in ['file', 'url']}
+        _config = config
+        if _imported:
+            _config = {k: v for k, v in config.items() if k not in ['keys', 'key_conf']}
+            if len(_imported) != len(_key_conf):
+                _config['keys'] = {k: v for k, v in _key_conf.items() if k not in _imported}
+        OidcContext.__init__(self, _config, keyjar, entity_id=config.get('client_id', ''))
         # Keys are fetched the same way as everything else
         _httpc_params = config.get('httpc_params') or kwargs.get('httpc_params')
         if keyjar is None and _httpc_params:
@@ -242,10 +251,8 @@ class ServiceContext(OidcContext):
             if not os.path.isdir(self.requests_dir):
                 os.makedirs(self.requests_dir)
 
-        # The name of the attribute used to be keys. Is not key_conf
-        _key_conf = config.get('keys', config.get('key_conf'))
-        if _key_conf:
-            self.import_keys(_key_conf)
+        if _imported:
+            self.import_keys(_imported)
 
     def __setitem__(self, key, value):
         setattr(self, key, value)
-- 
2.43.0


From ff08533dc9c9260ede873085825c369449d74ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:14 +0000
Subject: [PATCH 81/87] fix: imported keys are fetched the same way as
 everything else

That is with the HTTP client parameters of the client.
---
 src/oidcrp/service_context.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index dff55e9..e7c82bc 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -339,8 +339,7 @@ class ServiceContext(OidcContext):
                             self.keyjar.add_kb('', _bundle)
             elif where == 'url':
                 for iss, url in spec.items():
-                    _bundle = KeyBundle(source=url)
-                    self.keyjar.add_kb(iss, _bundle)
+                    self.keyjar.add_url(iss, url)
 
     def load_client_secret(self):
         """
-- 
2.43.0


From 16a5b432d2b74b8a107873a315dfc6df8f2c4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:06 +0000
Subject: [PATCH 82/87] fix: a provider's key in a PEM file is a public key

---
 src/oidcrp/rp_handler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index db55a1d..58d8e24 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -7,7 +7,9 @@ import traceback
 from typing import Optional
 
 from cryptojwt import as_unicode
-from cryptojwt.key_bundle import keybundle_from_local_file
+from cryptojwt.jwk.rsa import RSAKey
+from cryptojwt.jwk.rsa import import_public_rsa_key_from_file
+from cryptojwt.key_bundle import KeyBundle
 from cryptojwt.key_jar import init_key_jar
 from cryptojwt.utils import as_bytes
 from oidcmsg import verified_claim_name
@@ -248,7 +250,11 @@ class RPHandler(object):
                             if kty == 'jwks':
                                 _kj.import_jwks_from_file(_name, _context.get('issuer'))
                             elif kty == 'rsa':  # PEM file
-                                _kb = keybundle_from_local_file(_name, "der", ["sig"])
+                                # The provider's public key
+                                _key = RSAKey(pub_key=import_public_rsa_key_from_file(_name),
+                                              use='sig')
+                                _kb = KeyBundle()
+                                _kb.append(_key)
                                 _kj.add_kb(_context.get('issuer'), _kb)
                     else:
                         raise ValueError('Unknown provider JWKS type: {}'.format(typ))
-- 
2.43.0


From b3368ba020062b70ff6e78fb475a069029b2fd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:07 +0000
Subject: [PATCH 83/87] fix: the key jar a handler makes itself uses the
 handler's HTTP parameters

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 58d8e24..443bf80 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -103,7 +103,7 @@ class RPHandler(object):
         else:
             self.httpc_params = httpc_params
 
-        if not self.keyjar.httpc_params:
+        if keyjar is None or not self.keyjar.httpc_params:
             # The key jar adds things
             self.keyjar.httpc_params = copy.deepcopy(self.httpc_params)
 
-- 
2.43.0


From 85394f89cc3eb258e4604ab91fde7f1c3d124c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:57 +0000
Subject: [PATCH 84/87] fix: an ID Token got by reference is an IdToken,
 whatever the response type

---
 src/oidcrp/rp_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 443bf80..6ecbddf 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -22,6 +22,7 @@ from oidcmsg.oidc import AccessTokenResponse
 from oidcmsg.oidc import AuthorizationRequest
 from oidcmsg.oidc import AuthorizationResponse
 from oidcmsg.oidc import Claims
+from oidcmsg.oidc import IdToken
 from oidcmsg.oidc import OpenIDSchema
 from oidcmsg.oidc import RegistrationRequest
 from oidcmsg.oidc.session import BackChannelLogoutRequest
@@ -744,6 +745,8 @@ class RPHandler(object):
         if _resp_type in [{'id_token'}, {'id_token', 'token'},
                           {'code', 'id_token', 'token'}]:
             id_token = authorization_response['__verified_id_token']
+            if not isinstance(id_token, IdToken):  # As it is stored with the session
+                id_token = IdToken().from_dict(id_token)
 
         if _resp_type in [{'token'}, {'id_token', 'token'}, {'code', 'token'},
                           {'code', 'id_token', 'token'}]:
-- 
2.43.0


From 7484121d3edf572299582db51fc30ee4c3aed61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:57 +0000
Subject: [PATCH 85/87] fix: the authorization response is enough to get the
 tokens

---
 src/oidcrp/rp_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 6ecbddf..e378562 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -721,6 +721,9 @@ class RPHandler(object):
 
         logger.debug(20 * "*" + " get_access_and_id_token " + 20 * "*")
 
+        if not state and authorization_response is not None:
+            state = authorization_response['state']
+
         if client is None:
             client = self.get_client_from_session_key(state)
 
@@ -734,9 +737,6 @@ class RPHandler(object):
                 raise ValueError(
                     'One of authorization_response or state must be provided')
 
-        if not state:
-            state = authorization_response['state']
-
         authreq = _context.state.get_item(AuthorizationRequest, 'auth_request', state)
         _resp_type = set(authreq['response_type'])
 
-- 
2.43.0


From 20454c2c0150229ec8436693dba426fe667b7ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:09 +0000
Subject: [PATCH 86/87] fix: a name that only begins like the base URL has no
 file

---
 src/oidcrp/service_context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index e7c82bc..35e83ea 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -291,6 +291,9 @@ class ServiceContext(OidcContext):
         _name = webname[len(self.base_url):]
         if _name.startswith('/'):
             return _name[1:]
+        elif not self.base_url.endswith('/'):
+            # Something that only begins like the base_url
+            raise ValueError("Webname doesn't match base_url")
 
         return _name
 
-- 
2.43.0


From 4d84f7db078b87cbda70544e74ba7efc9db64021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:19 +0000
Subject: [PATCH 87/87] fix: what yaml_to_py_stream makes is Python

---
 src/oidcrp/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index f8164ab..1f73a27 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -6,6 +6,7 @@ import io
 import json
 import logging
 import os
+import pprint
 from random import SystemRandom
 import ssl
 import string
@@ -404,7 +405,7 @@ def yaml_to_py_stream(file_name):
     d = load_yaml_config(file_name)
     fstream = io.StringIO()
     for i in d:
-        section = '{} = {}\n\n'.format(i, json.dumps(d[i], indent=2))
+        section = '{} = {}\n\n'.format(i, pprint.pformat(d[i]))
         fstream.write(section)
     fstream.seek(0)
     return fstream
-- 
2.43.0

