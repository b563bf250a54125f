// Package logging is a stand-in for github.com/amarin/logging v0.1.0, whose module metadata and
// zap dependency are not available offline. It declares the same public names that module offers
// to its users (Logger, levels, options, constructors) with no zap behind them: messages are
// dropped unless VERIF_LOG=1 is set, in which case they go to stdout as "LEVEL name: text".
//
// It exists only so that the packages of /repo that import the real module can be compiled and
// exercised; no property is stated about logging itself.
package logging

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
)

// Error identifies logging module errors.
var Error = errors.New("logging")

// Level is a type for logging levels.
type Level int

// Logging levels.
const (
	LevelTrace   Level = 0
	LevelDebug   Level = 1
	LevelInfo    Level = 2
	LevelWarn    Level = 3
	LevelError   Level = 4
	LevelPanic   Level = 5
	LevelFatal   Level = 6
	DefaultLevel       = LevelInfo
)

var levelNames = []string{"trace", "debug", "info", "warn", "error", "panic", "fatal"}

// IsEnabledForLevel tells if messages of the level pass.
func (l Level) IsEnabledForLevel(level Level) bool { return level >= l }

// String implements fmt.Stringer.
func (l Level) String() string {
	if int(l) >= 0 && int(l) < len(levelNames) {
		return levelNames[l]
	}
	return "level" + strconv.Itoa(int(l))
}

// UnmarshalText implements encoding.TextUnmarshaler.
func (l *Level) UnmarshalText(text []byte) error {
	for i, n := range levelNames {
		if strings.EqualFold(n, string(text)) {
			*l = Level(i)
			return nil
		}
	}
	return fmt.Errorf("%w: unrecognized level: %q", Error, text)
}

// MarshalText implements encoding.TextMarshaler.
func (l Level) MarshalText() ([]byte, error) { return []byte(l.String()), nil }

// Key and Keys name logging context values.
type Key string

func (k Key) String() string { return string(k) }

// Keys is a set of key-value pairs.
type Keys map[Key]any

// Format and Target of the output.
type (
	Format string
	Target string
)

// Known formats and targets.
const (
	FormatText    Format = "text"
	FormatJSON    Format = "json"
	DefaultFormat        = FormatText
	StdOut        Target = "stdout"
	StdErr        Target = "stderr"
	SysLog        Target = "syslog"
	DefaultOutput        = StdOut
)

func (f Format) String() string { return string(f) }
func (t Target) String() string { return string(t) }

// Config stores logging configuration.
type Config struct {
	Level        Level
	Format       Format
	Output       Target
	CustomLevels map[string]Level
}

// Option changes Config.
type Option func(*Config)

// NewConfig makes a default configuration.
func NewConfig() *Config {
	return &Config{Level: DefaultLevel, Format: DefaultFormat, Output: DefaultOutput, CustomLevels: map[string]Level{}}
}

// Apply applies options.
func (config *Config) Apply(opts ...Option) {
	for _, o := range opts {
		o(config)
	}
}

// Validate checks configuration.
func (config Config) Validate() error { return nil }

// WithLevel sets level.
func WithLevel(level Level) Option { return func(c *Config) { c.Level = level } }

// WithFormat sets format.
func WithFormat(format Format) Option { return func(c *Config) { c.Format = format } }

// WithOutput sets output target.
func WithOutput(target Target) Option { return func(c *Config) { c.Output = target } }

// WithCustomLevel sets level of a named logger.
func WithCustomLevel(name string, level Level) Option {
	return func(c *Config) { c.CustomLevels[name] = level }
}

// Logger is the logging interface.
type Logger interface {
	Level() Level
	IsEnabledForLevel(level Level) bool
	Trace(args ...interface{})
	Tracef(fmt string, args ...interface{})
	Debug(args ...interface{})
	Debugf(fmt string, args ...interface{})
	Info(args ...interface{})
	Infof(fmt string, args ...interface{})
	Warn(args ...interface{})
	Warnf(fmt string, args ...interface{})
	Error(args ...interface{})
	Errorf(fmt string, args ...interface{})
	Fatal(args ...interface{})
	Fatalf(fmt string, args ...interface{})
	WithKeys(fields Keys) Logger
	WithKey(key string, value any) Logger
	WithError(err error) Logger
	WithLevel(level Level) Logger
}

var (
	mu       sync.Mutex
	cfg      = NewConfig()
	initDone bool
	enabled  = os.Getenv("VERIF_LOG") == "1"
)

// Init initialises logging.
func Init(opts ...Option) error {
	c := NewConfig()
	c.Apply(opts...)
	mu.Lock()
	cfg, initDone = c, true
	mu.Unlock()
	return nil
}

// MustInit initialises logging.
func MustInit(opts ...Option) { _ = Init(opts...) }

// CurrentConfig returns the configuration in use.
func CurrentConfig() *Config {
	mu.Lock()
	defer mu.Unlock()
	return cfg
}

type logger struct {
	name  string
	level Level
	keys  string
}

func newLogger(name string, levels ...Level) Logger {
	mu.Lock()
	c, ok := cfg, initDone
	mu.Unlock()
	if !ok {
		panic(fmt.Errorf("%w: set backend first", Error)) // as the real module does before Init
	}
	level := c.Level
	if len(levels) > 0 {
		level = levels[0]
	}
	if custom, has := c.CustomLevels[name]; has {
		level = custom
	}
	return logger{name: name, level: level}
}

// NewLogger makes a logger.
func NewLogger(levels ...Level) Logger { return newLogger("", levels...) }

// NewNamedLogger makes a named logger.
func NewNamedLogger(name string, levels ...Level) Logger { return newLogger(name, levels...) }

// NewLoggerCtx makes a logger.
func NewLoggerCtx(_ context.Context, levels ...Level) Logger { return newLogger("", levels...) }

// NewNamedLoggerCtx makes a named logger.
func NewNamedLoggerCtx(_ context.Context, name string, levels ...Level) Logger {
	return newLogger(name, levels...)
}

func (l logger) put(level Level, text func() string) {
	if !enabled || !l.level.IsEnabledForLevel(level) {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	fmt.Fprintf(os.Stdout, "%s %s: %s%s\n", level, l.name, text(), l.keys)
}

func (l logger) p(level Level, args []interface{}) {
	l.put(level, func() string { return fmt.Sprint(args...) })
}

func (l logger) f(level Level, format string, args []interface{}) {
	l.put(level, func() string { return fmt.Sprintf(format, args...) })
}

func (l logger) Level() Level { return l.level }
func (l logger) IsEnabledForLevel(level Level) bool {
	return enabled && l.level.IsEnabledForLevel(level)
}
func (l logger) Trace(a ...interface{})            { l.p(LevelTrace, a) }
func (l logger) Tracef(f string, a ...interface{}) { l.f(LevelTrace, f, a) }
func (l logger) Debug(a ...interface{})            { l.p(LevelDebug, a) }
func (l logger) Debugf(f string, a ...interface{}) { l.f(LevelDebug, f, a) }
func (l logger) Info(a ...interface{})             { l.p(LevelInfo, a) }
func (l logger) Infof(f string, a ...interface{})  { l.f(LevelInfo, f, a) }
func (l logger) Warn(a ...interface{})             { l.p(LevelWarn, a) }
func (l logger) Warnf(f string, a ...interface{})  { l.f(LevelWarn, f, a) }
func (l logger) Error(a ...interface{})            { l.p(LevelError, a) }
func (l logger) Errorf(f string, a ...interface{}) { l.f(LevelError, f, a) }
func (l logger) Fatal(a ...interface{})            { l.p(LevelFatal, a); os.Exit(1) }
func (l logger) Fatalf(f string, a ...interface{}) { l.f(LevelFatal, f, a); os.Exit(1) }
func (l logger) WithKey(key string, value any) Logger {
	l.keys += fmt.Sprintf(" %s=%v", key, value)
	return l
}
func (l logger) WithKeys(fields Keys) Logger {
	var res Logger = l
	for k, v := range fields {
		res = res.WithKey(k.String(), v)
	}
	return res
}
func (l logger) WithError(err error) Logger   { return l.WithKey("error", err) }
func (l logger) WithLevel(level Level) Logger { l.level = level; return l }
