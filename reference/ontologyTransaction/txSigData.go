package ontologyTransaction

type SigData struct {
	Nrequired uint16
	SigPubs   []SigPub
}
