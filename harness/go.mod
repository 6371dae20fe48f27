module verifharness

go 1.25

require gotor v0.0.0

require github.com/anishathalye/porcupine v1.3.1

replace gotor => /repo/src
