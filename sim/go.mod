module vsim

go 1.25

require (
	github.com/siebenmann/smtpd v0.0.0
	vsut v0.0.0
)

replace github.com/siebenmann/smtpd => ./smtpd
