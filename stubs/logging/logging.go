// Package logging is an API-compatible, effect-free stand-in for github.com/amarin/logging v0.1.0,
// which this sandbox cannot resolve. It exists so that the packages of gomorphy that import it type-check and run.
package logging

type Level int

const (
	LevelTrace Level = iota
	LevelDebug
	LevelInfo
	LevelWarn
	LevelError
	LevelFatal
)

type Option func()

func WithLevel(Level) Option { return func() {} }

func Init(...Option) error { return nil }

func MustInit(...Option) {}

type Logger interface {
	Level() Level
	IsEnabledForLevel(level Level) bool
	Trace(args ...interface{})
	Tracef(format string, args ...interface{})
	Debug(args ...interface{})
	Debugf(format string, args ...interface{})
	Info(args ...interface{})
	Infof(format string, args ...interface{})
	Warn(args ...interface{})
	Warnf(format string, args ...interface{})
	Error(args ...interface{})
	Errorf(format string, args ...interface{})
	WithLevel(level Level) Logger
}

type nop struct{}

func (nop) Level() Level                     { return LevelDebug }
func (nop) IsEnabledForLevel(Level) bool     { return true }
func (nop) Trace(...interface{})             {}
func (nop) Tracef(string, ...interface{})    {}
func (nop) Debug(...interface{})             {}
func (nop) Debugf(string, ...interface{})    {}
func (nop) Info(...interface{})              {}
func (nop) Infof(string, ...interface{})     {}
func (nop) Warn(...interface{})              {}
func (nop) Warnf(string, ...interface{})     {}
func (nop) Error(...interface{})             {}
func (nop) Errorf(string, ...interface{})    {}
func (n nop) WithLevel(Level) Logger         { return n }
func NewNamedLogger(string, ...Level) Logger { return nop{} }
func NewLogger(...Level) Logger              { return nop{} }
