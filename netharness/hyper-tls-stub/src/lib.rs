//! Stand-in for `hyper-tls` that connects over plain HTTP only.

use std::task::{Context, Poll};

use hyper::client::connect::HttpConnector;
use hyper::service::Service;
use hyper::Uri;

#[derive(Clone, Debug)]
pub struct HttpsConnector<T>(T);

impl HttpsConnector<HttpConnector> {
    pub fn new() -> Self {
        HttpsConnector(HttpConnector::new())
    }
}

impl Default for HttpsConnector<HttpConnector> {
    fn default() -> Self { Self::new() }
}

impl Service<Uri> for HttpsConnector<HttpConnector> {
    type Response = <HttpConnector as Service<Uri>>::Response;
    type Error = <HttpConnector as Service<Uri>>::Error;
    type Future = <HttpConnector as Service<Uri>>::Future;

    fn poll_ready(&mut self, cx: &mut Context<'_>)
        -> Poll<Result<(), Self::Error>>
    {
        self.0.poll_ready(cx)
    }

    fn call(&mut self, uri: Uri) -> Self::Future {
        self.0.call(uri)
    }
}
