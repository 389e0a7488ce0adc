#!/bin/bash
# Regenerates the test certificates (they are committed; this is kept for the record).
set -e
cd "$(dirname "$0")"; rm -rf w; mkdir w
ca() { # name
  openssl ecparam -name prime256v1 -genkey -noout -out w/$1.key
  printf '[ca]\ndefault_ca=d\n[d]\ndatabase=w/%s.db\nserial=w/%s.srl\nnew_certs_dir=w\ndefault_md=sha256\npolicy=p\nunique_subject=no\ncopy_extensions=none\n[p]\ncommonName=supplied\n[v3ca]\nbasicConstraints=critical,CA:true\nkeyUsage=critical,keyCertSign,cRLSign\nsubjectKeyIdentifier=hash\n[req]\ndistinguished_name=dn\n[dn]\n' $1 $1 > w/$1.cnf
  : > w/$1.db; echo 1000 > w/$1.srl
  openssl req -new -key w/$1.key -subj "/CN=$1" -config w/$1.cnf -out w/$1.csr
  openssl ca -batch -selfsign -config w/$1.cnf -extensions v3ca -startdate 20150101000000Z -enddate 20990101000000Z -keyfile w/$1.key -in w/$1.csr -out w/$1.pem -notext 2>/dev/null
}
leaf() { # name ca start end san
  openssl ecparam -name prime256v1 -genkey -noout | openssl pkcs8 -topk8 -nocrypt -out $1.key
  printf 'basicConstraints=critical,CA:false\nkeyUsage=critical,digitalSignature\nextendedKeyUsage=serverAuth\nsubjectAltName=%s\n' "$5" > w/$1.ext
  openssl req -new -key $1.key -subj "/CN=$1" -config w/ca.cnf -out w/$1.csr
  openssl ca -batch -config w/$2.cnf -cert w/$2.pem -keyfile w/$2.key -extfile w/$1.ext -startdate $3 -enddate $4 -in w/$1.csr -out $1.pem -notext 2>/dev/null
}
ca ca; ca otherca
SAN='DNS:secure.test,DNS:secure2.test,DNS:*.tls.test,IP:10.9.0.1'
leaf good ca 20200101000000Z 20450101000000Z "$SAN"
leaf wrongname ca 20200101000000Z 20450101000000Z 'DNS:other.test'
leaf expired ca 20200101000000Z 20240101000000Z "$SAN"
leaf notyet ca 20300101000000Z 20450101000000Z "$SAN"
leaf untrusted otherca 20200101000000Z 20450101000000Z "$SAN"
cp w/ca.pem ca.pem
openssl ecparam -name prime256v1 -genkey -noout | openssl pkcs8 -topk8 -nocrypt -out selfsigned.key
openssl req -new -x509 -key selfsigned.key -subj /CN=secure.test -addext "subjectAltName=$SAN" -days 7000 -out selfsigned.pem
rm -rf w
