// Code generated from the real package's exported names.

package http

import zz "net/http"

const (
	DefaultMaxHeaderBytes = zz.DefaultMaxHeaderBytes
	DefaultMaxHeaderValueCount = zz.DefaultMaxHeaderValueCount
	DefaultMaxIdleConnsPerHost = zz.DefaultMaxIdleConnsPerHost
	MethodConnect = zz.MethodConnect
	MethodDelete = zz.MethodDelete
	MethodGet = zz.MethodGet
	MethodHead = zz.MethodHead
	MethodOptions = zz.MethodOptions
	MethodPatch = zz.MethodPatch
	MethodPost = zz.MethodPost
	MethodPut = zz.MethodPut
	MethodTrace = zz.MethodTrace
	SameSiteDefaultMode = zz.SameSiteDefaultMode
	SameSiteLaxMode = zz.SameSiteLaxMode
	SameSiteNoneMode = zz.SameSiteNoneMode
	SameSiteStrictMode = zz.SameSiteStrictMode
	StateActive = zz.StateActive
	StateClosed = zz.StateClosed
	StateHijacked = zz.StateHijacked
	StateIdle = zz.StateIdle
	StateNew = zz.StateNew
	StatusAccepted = zz.StatusAccepted
	StatusAlreadyReported = zz.StatusAlreadyReported
	StatusBadGateway = zz.StatusBadGateway
	StatusBadRequest = zz.StatusBadRequest
	StatusConflict = zz.StatusConflict
	StatusContinue = zz.StatusContinue
	StatusCreated = zz.StatusCreated
	StatusEarlyHints = zz.StatusEarlyHints
	StatusExpectationFailed = zz.StatusExpectationFailed
	StatusFailedDependency = zz.StatusFailedDependency
	StatusForbidden = zz.StatusForbidden
	StatusFound = zz.StatusFound
	StatusGatewayTimeout = zz.StatusGatewayTimeout
	StatusGone = zz.StatusGone
	StatusHTTPVersionNotSupported = zz.StatusHTTPVersionNotSupported
	StatusIMUsed = zz.StatusIMUsed
	StatusInsufficientStorage = zz.StatusInsufficientStorage
	StatusInternalServerError = zz.StatusInternalServerError
	StatusLengthRequired = zz.StatusLengthRequired
	StatusLocked = zz.StatusLocked
	StatusLoopDetected = zz.StatusLoopDetected
	StatusMethodNotAllowed = zz.StatusMethodNotAllowed
	StatusMisdirectedRequest = zz.StatusMisdirectedRequest
	StatusMovedPermanently = zz.StatusMovedPermanently
	StatusMultiStatus = zz.StatusMultiStatus
	StatusMultipleChoices = zz.StatusMultipleChoices
	StatusNetworkAuthenticationRequired = zz.StatusNetworkAuthenticationRequired
	StatusNoContent = zz.StatusNoContent
	StatusNonAuthoritativeInfo = zz.StatusNonAuthoritativeInfo
	StatusNotAcceptable = zz.StatusNotAcceptable
	StatusNotExtended = zz.StatusNotExtended
	StatusNotFound = zz.StatusNotFound
	StatusNotImplemented = zz.StatusNotImplemented
	StatusNotModified = zz.StatusNotModified
	StatusOK = zz.StatusOK
	StatusPartialContent = zz.StatusPartialContent
	StatusPaymentRequired = zz.StatusPaymentRequired
	StatusPermanentRedirect = zz.StatusPermanentRedirect
	StatusPreconditionFailed = zz.StatusPreconditionFailed
	StatusPreconditionRequired = zz.StatusPreconditionRequired
	StatusProcessing = zz.StatusProcessing
	StatusProxyAuthRequired = zz.StatusProxyAuthRequired
	StatusRequestEntityTooLarge = zz.StatusRequestEntityTooLarge
	StatusRequestHeaderFieldsTooLarge = zz.StatusRequestHeaderFieldsTooLarge
	StatusRequestTimeout = zz.StatusRequestTimeout
	StatusRequestURITooLong = zz.StatusRequestURITooLong
	StatusRequestedRangeNotSatisfiable = zz.StatusRequestedRangeNotSatisfiable
	StatusResetContent = zz.StatusResetContent
	StatusSeeOther = zz.StatusSeeOther
	StatusServiceUnavailable = zz.StatusServiceUnavailable
	StatusSwitchingProtocols = zz.StatusSwitchingProtocols
	StatusTeapot = zz.StatusTeapot
	StatusTemporaryRedirect = zz.StatusTemporaryRedirect
	StatusTooEarly = zz.StatusTooEarly
	StatusTooManyRequests = zz.StatusTooManyRequests
	StatusUnauthorized = zz.StatusUnauthorized
	StatusUnavailableForLegalReasons = zz.StatusUnavailableForLegalReasons
	StatusUnprocessableEntity = zz.StatusUnprocessableEntity
	StatusUnsupportedMediaType = zz.StatusUnsupportedMediaType
	StatusUpgradeRequired = zz.StatusUpgradeRequired
	StatusUseProxy = zz.StatusUseProxy
	StatusVariantAlsoNegotiates = zz.StatusVariantAlsoNegotiates
	TimeFormat = zz.TimeFormat
	TrailerPrefix = zz.TrailerPrefix
)

type (
	ClientConn = zz.ClientConn
	CloseNotifier = zz.CloseNotifier
	ConnState = zz.ConnState
	Cookie = zz.Cookie
	CookieJar = zz.CookieJar
	CrossOriginProtection = zz.CrossOriginProtection
	File = zz.File
	FileSystem = zz.FileSystem
	HTTP2Config = zz.HTTP2Config
	Hijacker = zz.Hijacker
	MaxBytesError = zz.MaxBytesError
	ProtocolError = zz.ProtocolError
	Protocols = zz.Protocols
	PushOptions = zz.PushOptions
	Pusher = zz.Pusher
	ResponseController = zz.ResponseController
	RoundTripper = zz.RoundTripper
	SameSite = zz.SameSite
	Transport = zz.Transport
)

var (
	DefaultClient = zz.DefaultClient
	DefaultServeMux = zz.DefaultServeMux
	DefaultTransport = zz.DefaultTransport
	ErrAbortHandler = zz.ErrAbortHandler
	ErrBodyNotAllowed = zz.ErrBodyNotAllowed
	ErrBodyReadAfterClose = zz.ErrBodyReadAfterClose
	ErrContentLength = zz.ErrContentLength
	ErrHandlerTimeout = zz.ErrHandlerTimeout
	ErrHeaderTooLong = zz.ErrHeaderTooLong
	ErrHijacked = zz.ErrHijacked
	ErrLineTooLong = zz.ErrLineTooLong
	ErrMissingBoundary = zz.ErrMissingBoundary
	ErrMissingContentLength = zz.ErrMissingContentLength
	ErrMissingFile = zz.ErrMissingFile
	ErrNoCookie = zz.ErrNoCookie
	ErrNoLocation = zz.ErrNoLocation
	ErrNotMultipart = zz.ErrNotMultipart
	ErrNotSupported = zz.ErrNotSupported
	ErrSchemeMismatch = zz.ErrSchemeMismatch
	ErrShortBody = zz.ErrShortBody
	ErrSkipAltProtocol = zz.ErrSkipAltProtocol
	ErrUnexpectedTrailer = zz.ErrUnexpectedTrailer
	ErrUseLastResponse = zz.ErrUseLastResponse
	ErrWriteAfterFlush = zz.ErrWriteAfterFlush
	LocalAddrContextKey = zz.LocalAddrContextKey
	NoBody = zz.NoBody
	ServerContextKey = zz.ServerContextKey
	AllowQuerySemicolons = zz.AllowQuerySemicolons
	CanonicalHeaderKey = zz.CanonicalHeaderKey
	DetectContentType = zz.DetectContentType
	FS = zz.FS
	FileServer = zz.FileServer
	FileServerFS = zz.FileServerFS
	Get = zz.Get
	Handle = zz.Handle
	HandleFunc = zz.HandleFunc
	Head = zz.Head
	ListenAndServe = zz.ListenAndServe
	ListenAndServeTLS = zz.ListenAndServeTLS
	MaxBytesHandler = zz.MaxBytesHandler
	MaxBytesReader = zz.MaxBytesReader
	NewCrossOriginProtection = zz.NewCrossOriginProtection
	NewFileTransport = zz.NewFileTransport
	NewFileTransportFS = zz.NewFileTransportFS
	NewRequestWithContext = zz.NewRequestWithContext
	NewResponseController = zz.NewResponseController
	NotFoundHandler = zz.NotFoundHandler
	ParseCookie = zz.ParseCookie
	ParseHTTPVersion = zz.ParseHTTPVersion
	ParseSetCookie = zz.ParseSetCookie
	ParseTime = zz.ParseTime
	Post = zz.Post
	PostForm = zz.PostForm
	ProxyFromEnvironment = zz.ProxyFromEnvironment
	ProxyURL = zz.ProxyURL
	ReadRequest = zz.ReadRequest
	ReadResponse = zz.ReadResponse
	Redirect = zz.Redirect
	RedirectHandler = zz.RedirectHandler
	Serve = zz.Serve
	ServeContent = zz.ServeContent
	ServeFile = zz.ServeFile
	ServeFileFS = zz.ServeFileFS
	ServeTLS = zz.ServeTLS
	SetCookie = zz.SetCookie
	StripPrefix = zz.StripPrefix
	TimeoutHandler = zz.TimeoutHandler
)
