// Package libxml is a stand-in for github.com/amarin/libxml v0.1.2, whose source is not available
// offline. /repo uses one function of it, ParseXMLFile(path, target), and hands it a value having
// one Process... method per kind of token of encoding/xml. The stand-in does what that shape
// implies: it reads the file with encoding/xml.Decoder, passes every token to its method in
// document order, stops at the first error and returns it.
package libxml

import (
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"os"
)

// Error identifies package errors.
var Error = errors.New("libxml")

// TokenProcessor receives XML tokens.
type TokenProcessor interface {
	ProcessStartElement(element xml.StartElement) error
	ProcessCharData(data xml.CharData) error
	ProcessEndElement(element xml.EndElement) error
	ProcessComment(comment xml.Comment) error
	ProcessProcInst(inst xml.ProcInst) error
	ProcessDirective(directive xml.Directive) error
}

// ParseXMLFile parses a file.
func ParseXMLFile(filePath string, target TokenProcessor) error {
	file, err := os.Open(filePath)
	if err != nil {
		return fmt.Errorf("%w: open: %w", Error, err)
	}
	defer func() { _ = file.Close() }()
	return ParseXML(file, target)
}

// ParseXML parses a stream.
func ParseXML(source io.Reader, target TokenProcessor) error {
	decoder := xml.NewDecoder(source)
	for {
		token, err := decoder.Token()
		switch {
		case errors.Is(err, io.EOF):
			return nil
		case err != nil:
			return fmt.Errorf("%w: token: %w", Error, err)
		}
		switch typed := token.(type) {
		case xml.StartElement:
			err = target.ProcessStartElement(typed.Copy())
		case xml.EndElement:
			err = target.ProcessEndElement(typed)
		case xml.CharData:
			err = target.ProcessCharData(typed.Copy())
		case xml.Comment:
			err = target.ProcessComment(typed.Copy())
		case xml.ProcInst:
			err = target.ProcessProcInst(typed.Copy())
		case xml.Directive:
			err = target.ProcessDirective(typed.Copy())
		}
		if err != nil {
			return err
		}
	}
}
