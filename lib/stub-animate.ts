// Stand-in for the browser side of the capture module as src/cli imports it: the page
// says what is painted, and there are no web fonts to fetch. Everything else is real.
export * from "/repo/src/capture/index.ts";
export const captureElementTree = async (page: any, selector: string, viewport: any, opts?: any): Promise<any> => page.__capture("plain", selector, viewport, opts);
export const captureElementTreeSelfContained = async (page: any, selector: string, viewport: any, opts?: any): Promise<any> => page.__capture("embedded", selector, viewport, opts);
export const attachWebfontTracker = (): any => ({ urls: new Set(), detach() {} });
export const discoverAndRegisterWebfonts = async (): Promise<any> => ({ registered: 0 });
