module github.com/siebenmann/smtpd

go 1.25

require vsim v0.0.0
