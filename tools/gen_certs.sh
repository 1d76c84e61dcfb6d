#!/bin/bash
# Makes the keys and certificates in certs/ (committed; only for the checks' own servers on the loopback interface)
set -e
out="$(cd "$(dirname "$0")/.." && pwd)/certs"
w=$(mktemp -d)
cd "$w"
touch index.txt index.txt.attr; echo 1000 > serial
cat > ca.cnf <<EOF
[ca]
default_ca = d
[d]
database = $w/index.txt
new_certs_dir = $w
serial = $w/serial
default_md = sha256
policy = p
unique_subject = no
copy_extensions = none
[p]
commonName = supplied
[req]
distinguished_name = dn
[dn]
EOF
key() { openssl ecparam -name prime256v1 -genkey -noout -out "$1.key"; }
# issue NAME CN ISSUER START END EXTENSIONS [KEY]
issue() {
    [ -n "$7" ] || key "$1"
    local k=${7:-$1}
    openssl req -new -config ca.cnf -key "$k.key" -subj "/CN=$2" -out r.csr
    printf "%b" "$6" > ext
    if [ "$3" = self ]; then openssl ca -batch -notext -config ca.cnf -selfsign -keyfile "$k.key" -in r.csr -out "$1.pem" -startdate "$4" -enddate "$5" -extfile ext 2>/dev/null
    else openssl ca -batch -notext -config ca.cnf -cert "$3.pem" -keyfile "$3.key" -in r.csr -out "$1.pem" -startdate "$4" -enddate "$5" -extfile ext 2>/dev/null; fi
}
A=20000101000000Z; B=20491231000000Z
CA="basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign,cRLSign\nsubjectKeyIdentifier=hash\n"
leaf() { printf 'basicConstraints=CA:FALSE\\nsubjectAltName=%s\\n' "$1"; }
issue ca "VH root" self $A $B "$CA"
issue other_ca "VH other root" self $A $B "$CA"
issue ca2 "VH second root" self $A $B "$CA"
issue good localhost ca $A $B "$(leaf DNS:localhost)"
issue good2 localhost ca2 $A $B "$(leaf DNS:localhost)"
issue wrong_host example.org ca $A $B "$(leaf DNS:example.org)"
issue san_only localhost ca $A $B "$(leaf DNS:example.org)"
issue near_host localhos ca $A $B "$(leaf DNS:localhos,DNS:localhost.example.org,DNS:xlocalhost)"
issue wildcard example.org ca $A $B "$(leaf 'DNS:*.example.org')"
issue expired localhost ca 20000101000000Z 20010101000000Z "$(leaf DNS:localhost)"
issue future localhost ca 20480101000000Z $B "$(leaf DNS:localhost)"
issue untrusted localhost other_ca $A $B "$(leaf DNS:localhost)"
issue selfsigned localhost self $A $B "$(leaf DNS:localhost)"
issue inter "VH intermediate" ca $A $B "$CA"
issue chained localhost inter $A $B "$(leaf DNS:localhost)"
cat chained.pem inter.pem > chain.pem; cp chained.key chain.key
# signed by something which isn't allowed to sign
issue notca localhost good $A $B "$(leaf DNS:localhost)"
cat notca.pem good.pem > notca_chain.pem; cp notca.key notca_chain.key
# signed by an expired intermediate
issue oldinter "VH old intermediate" ca 20000101000000Z 20010101000000Z "$CA"
issue oldchained localhost oldinter $A $B "$(leaf DNS:localhost)"
cat oldchained.pem oldinter.pem > old_chain.pem; cp oldchained.key old_chain.key
# a signature with one bit changed
openssl x509 -in good.pem -outform der -out g.der
python3 - <<'EOF'
b = bytearray(open("g.der", "rb").read()); b[-3] ^= 1; open("g.der", "wb").write(bytes(b))
EOF
openssl x509 -inform der -in g.der -out forged.pem; cp good.key forged.key
# signed by something which only has the name of the CA
key fake
issue fake "VH root" self $A $B "$CA" fake
issue spoofed localhost fake $A $B "$(leaf DNS:localhost)"
# one with an RSA key
openssl genrsa -out rsa.key 2048 2>/dev/null
issue rsa localhost ca $A $B "$(leaf DNS:localhost)" rsa
# a key which needs a password
openssl ec -in good.key -aes128 -passout pass:secret -out locked.key 2>/dev/null
mkdir -p "$out"
for n in good good2 wrong_host san_only near_host wildcard expired future untrusted selfsigned chain notca_chain old_chain forged spoofed rsa; do cp $n.pem $n.key "$out/"; done
cp ca.pem other_ca.pem ca2.pem locked.key "$out/"; chmod 644 "$out"/*
cd /; rm -r "${w:?}"
