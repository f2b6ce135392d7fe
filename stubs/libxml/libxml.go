// Package libxml is an API-compatible stand-in for github.com/amarin/libxml v0.1.2, which this sandbox cannot fetch:
// it feeds the tokens of an XML file to a handler.
package libxml

import (
	"encoding/xml"
	"errors"
	"io"
	"os"
)

type ElementProcessor interface {
	ProcessStartElement(element xml.StartElement) error
	ProcessCharData(data xml.CharData) error
	ProcessEndElement(element xml.EndElement) error
	ProcessComment(xml.Comment) error
	ProcessProcInst(xml.ProcInst) error
	ProcessDirective(xml.Directive) error
}

func ParseXMLFile(path string, h ElementProcessor) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	d := xml.NewDecoder(f)
	for {
		tok, err := d.Token()
		if errors.Is(err, io.EOF) {
			return nil
		}
		if err != nil {
			return err
		}
		switch t := tok.(type) {
		case xml.StartElement:
			err = h.ProcessStartElement(t)
		case xml.CharData:
			err = h.ProcessCharData(t)
		case xml.EndElement:
			err = h.ProcessEndElement(t)
		case xml.Comment:
			err = h.ProcessComment(t)
		case xml.ProcInst:
			err = h.ProcessProcInst(t)
		case xml.Directive:
			err = h.ProcessDirective(t)
		}
		if err != nil {
			return err
		}
	}
}
