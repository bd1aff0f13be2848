// The real requirements are generated by tools/modfile.py (-modfile).
module github.com/fakeyanss/jt808-server-go/verifharness

go 1.25.0
