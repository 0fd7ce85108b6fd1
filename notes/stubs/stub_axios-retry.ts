export default (_c: any, _o?: any) => {};
