// Stand-in for the browser capture step: returns the tree the harness's fake page
// says is painted now. Everything else in the capture module stays real.
export * from "/repo/src/capture/index.ts";
export const captureElementTree = async (page: any, selector: string, viewport: any, opts?: any): Promise<any> => page.__capture("plain", selector, viewport, opts);
export const captureElementTreeSelfContained = async (page: any, selector: string, viewport: any, opts?: any): Promise<any> => page.__capture("embedded", selector, viewport, opts);
